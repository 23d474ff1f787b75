// C11: setting a parameter is seen by every reader, in every composition.
#include <albatross/CovarianceFunctions>
#include <albatross/Dataset>
#include <albatross/GP>
#include <albatross/NullModel>
#include <albatross/SparseGP>
#include <albatross/Tune>
#include "mc.h"

using namespace albatross;

namespace {

// Leaves: functions with one parameter whose name is only known at run time.
double leaf_value(double v, int k, double x, double y) { return v * (1. + k * x * y + 0.25 * k * k); }

struct CovLeaf : public CovarianceFunction<CovLeaf> {
  CovLeaf() = default;
  CovLeaf(const std::string &n, const Parameter &p, int k_) : k(k_), key(n) { params_[n] = p; }
  std::string name() const { return key; }
  double _call_impl(const double &x, const double &y) const { return leaf_value(params_.at(key).value, k, x, y); }
  int k = 0;
  std::string key;
};
struct MeanLeaf : public MeanFunction<MeanLeaf> {
  MeanLeaf() = default;
  MeanLeaf(const std::string &n, const Parameter &p, int k_) : k(k_), key(n) { params_[n] = p; }
  std::string name() const { return key; }
  double _call_impl(const double &x) const { return leaf_value(params_.at(key).value, k, x, 1.); }
  int k = 0;
  std::string key;
};
struct ScaleLeaf : public ScalingFunction {
  ScaleLeaf() = default;
  ScaleLeaf(const std::string &n, const Parameter &p, int k_) : k(k_), key(n) { params_[n] = p; }
  std::string get_name() const override { return key; }
  double _call_impl(const double &x) const { return leaf_value(params_.at(key).value, k, x, 1.); }
  int k = 0;
  std::string key;
};
// A leaf written with the macros: two parameters of fixed names.
struct MacroLeaf : public CovarianceFunction<MacroLeaf> {
  ALBATROSS_DECLARE_PARAMS(alpha, beta)
  MacroLeaf() = default;
  MacroLeaf(const Parameter &a, const Parameter &b) {
    alpha = a;
    beta = b;
  }
  double _call_impl(const double &x, const double &y) const { return alpha.value + beta.value * x * y; }
};

// The reference: an expression over the parameter values.
struct Expr {
  std::function<double(const std::map<std::string, double> &, double, double)> f;
};
Expr operator+(const Expr &a, const Expr &b) {
  return {[a, b](const auto &v, double x, double y) { return a.f(v, x, y) + b.f(v, x, y); }};
}
Expr operator*(const Expr &a, const Expr &b) {
  return {[a, b](const auto &v, double x, double y) { return a.f(v, x, y) * b.f(v, x, y); }};
}
Expr cov_expr(const std::string &n, int k) {
  return {[n, k](const auto &v, double x, double y) { return leaf_value(v.at(n), k, x, y); }};
}
Expr mean_expr(const std::string &n, int k) {
  return {[n, k](const auto &v, double x, double) { return leaf_value(v.at(n), k, x, 1.); }};
}
Expr scale_expr(const std::string &n, int k) {
  return {[n, k](const auto &v, double x, double y) { return leaf_value(v.at(n), k, x, 1.) * leaf_value(v.at(n), k, y, 1.); }};
}

std::map<std::string, double> values_of(const ParameterStore &s) {
  std::map<std::string, double> out;
  for (const auto &p : s)
    out[p.first] = p.second.value;
  return out;
}
std::string show(const ParameterStore &s) {
  std::ostringstream os;
  os.precision(17);
  for (const auto &p : s)
    os << p.first << "=" << p.second.value << "~" << p.second.prior.get_name() << " ";
  return os.str();
}
const std::vector<PriorContainer> &prior_kinds() {
  static const std::vector<PriorContainer> p = {UninformativePrior(), FixedPrior(), LogScaleUniformPrior(0.125, 16.), UniformPrior(0., 8.)};
  return p;
}

// What is compared after every operation.
using Compute = std::function<std::vector<double>()>;
using Expected = std::function<std::vector<double>(const ParameterStore &)>;

void compare(mc::Ctx &c, const ParameterHandlingMixin &h, const Compute &compute, const Expected &expected, const ParameterStore &m, bool exact = true) {
  const auto got = h.get_params();
  bool same = got.size() == m.size();
  for (const auto &p : m) {
    const auto it = got.find(p.first);
    same = same && it != got.end() && (exact ? it->second.value == p.second.value : mc::near(it->second.value, p.second.value, 1e-12, 0.)) && it->second.prior == p.second.prior;
  }
  c.check(same, "reported-parameters", "got " + show(got) + " want " + show(m));
  const auto a = compute(), b = expected(m);
  bool equal = a.size() == b.size();
  for (std::size_t i = 0; equal && i < a.size(); ++i)
    equal = mc::near(a[i], b[i], 1e-9, 1e-9);
  std::ostringstream os;
  for (std::size_t i = 0; i < a.size(); ++i)
    os << " " << a[i] << " vs " << (i < b.size() ? b[i] : 0.);
  c.check(equal, "computed-values", "with " + show(m) + ":" + os.str());
  for (const auto &p : m)
    c.check(mc::near(h.get_param_value(p.first), p.second.value, 1e-12, 0.), "get_param_value", p.first);
  bool valid = true;
  double ll = 0.;
  for (const auto &p : m) {
    valid = valid && p.second.value >= p.second.prior.lower_bound() && p.second.value <= p.second.prior.upper_bound();
    ll += p.second.prior.log_pdf(p.second.value);
  }
  c.check(h.params_are_valid() == valid, "validity", show(m));
  c.check(mc::near(h.prior_log_likelihood(), ll, 1e-9, 1e-9), "prior-likelihood", show(m));
  if (!valid)
    return;
  const auto t = h.get_tunable_parameters();
  std::size_t i = 0;
  bool ok = true;
  for (const auto &p : m) {
    if (p.second.is_fixed())
      continue;
    const bool lg = p.second.prior.is_log_scale();
    const auto f = [&](double v) { return lg ? std::log(v) : v; };
    ok = ok && i < t.names.size() && i < t.values.size() && i < t.lower_bounds.size() && i < t.upper_bounds.size() && t.names[i] == p.first && mc::near(t.values[i], f(p.second.value)) &&
         mc::near(t.lower_bounds[i], f(p.second.prior.lower_bound())) && mc::near(t.upper_bounds[i], f(p.second.prior.upper_bound()));
    ++i;
  }
  c.check(ok && t.names.size() == i && t.values.size() == i && t.lower_bounds.size() == i && t.upper_bounds.size() == i, "tunable-parameters", show(m));
}

bool all_valid(const ParameterStore &m) {
  for (const auto &p : m)
    if (!p.second.is_valid())
      return false;
  return true;
}

// One operation of every kind, applied to the handler and to the model store.
void operate(mc::Ctx &c, ParameterHandlingMixin &h, ParameterStore &m) {
  std::vector<std::string> names;
  for (const auto &p : m)
    names.push_back(p.first);
  const auto value = [&] { return c.pick<double>({0.5, 3.}); };
  const auto prior = [&] { return prior_kinds()[static_cast<std::size_t>(c.choose(static_cast<int>(prior_kinds().size())))]; };
  c.step();
  const int op = c.choose(names.empty() ? 1 : 12);
  c << "op" << op << " ";
  switch (op) {
  case 0: { // unknown names are skipped by the lenient forms
    const int form = c.choose(5);
    c << "unknown name, form " << form << "; ";
    const Parameter p(42., FixedPrior());
    if (form == 0)
      h.set_params_if_exists({{"no_such_name", p}});
    else if (form == 1)
      h.set_param_values_if_exists({{"no_such_name", 42.}});
    else if (form == 2)
      c.check(!set_param_if_exists("no_such_name", p, &h), "unknown-name-is-reported");
    else if (form == 3)
      c.check(!set_param_value_if_exists("no_such_name", 42., &h), "unknown-name-is-reported");
    else {
      c.check(!set_params_if_exists(ParameterStore{{"no_such_name", p}}, &h), "unknown-name-is-reported");
      c.check(!set_param_values_if_exists(std::map<std::string, double>{{"no_such_name", 42.}}, &h), "unknown-name-is-reported");
    }
    break;
  }
  case 1: {
    const auto n = c.pick(names);
    const Parameter p(value(), prior());
    c << "set_param " << n << " " << p.value << " " << p.prior.get_name() << "; ";
    h.set_param(n, p);
    m[n] = p;
    break;
  }
  case 2: {
    const auto n = c.pick(names);
    const double v = value();
    c << "set_param(double) " << n << " " << v << "; ";
    h.set_param(n, v);
    m[n].value = v;
    break;
  }
  case 3: {
    const auto n = c.pick(names);
    const double v = value();
    c << "set_param_value " << n << " " << v << "; ";
    if (c.flip())
      h.set_param_value(n, v);
    else
      c.check(set_param_value_if_exists(n, v, &h), "known-name-is-reported");
    m[n].value = v;
    break;
  }
  case 4: {
    const auto n = c.pick(names);
    const auto p = prior();
    c << "set_prior " << n << " " << p.get_name() << "; ";
    h.set_prior(n, p);
    m[n].prior = p;
    break;
  }
  case 5:
  case 6: {
    // a map with one or two names; case 6 adds an unknown one
    ParameterStore s;
    const std::size_t first = static_cast<std::size_t>(c.choose(static_cast<int>(names.size())));
    s[names[first]] = Parameter(value(), prior_kinds()[2]);
    if (names.size() > 1 && c.flip())
      s[names[(first + 1) % names.size()]] = Parameter(1.5, prior_kinds()[1]);
    c << "set_params " << show(s) << "; ";
    for (const auto &p : s)
      m[p.first] = p.second;
    if (op == 5) {
      h.set_params(s);
    } else {
      s[c.flip() ? "no_such_name" : "!no_such_name"] = Parameter(42.); // sorts after, or before, the known ones
      if (c.flip())
        h.set_params_if_exists(s);
      else
        c.check(!set_params_if_exists(s, &h), "one-unknown-name-is-reported");
    }
    break;
  }
  case 7:
  case 8: {
    std::map<std::string, double> s;
    const std::size_t first = static_cast<std::size_t>(c.choose(static_cast<int>(names.size())));
    s[names[first]] = value();
    if (names.size() > 1 && c.flip())
      s[names[(first + 1) % names.size()]] = 1.5;
    c << "set_param_values " << s.size() << " from " << names[first] << "; ";
    for (const auto &p : s)
      m[p.first].value = p.second;
    if (op == 7) {
      if (c.flip())
        h.set_param_values(s);
      else
        c.check(set_param_values_if_exists(s, &h), "known-names-are-reported");
    } else {
      s[c.flip() ? "no_such_name" : "!no_such_name"] = 42.;
      if (c.flip())
        h.set_param_values_if_exists(s);
      else
        c.check(!set_param_values_if_exists(s, &h), "one-unknown-name-is-reported");
    }
    break;
  }
  case 9:
  case 10: { // a vector of tunable values; one of them moves, maybe out of bounds
    c.assume(all_valid(m));
    auto t = h.get_tunable_parameters();
    c.assume(!t.values.empty());
    const bool force = op == 9;
    const int which = c.choose(static_cast<int>(t.values.size()));
    const double delta = c.pick<double>({0.25, 100., -100.});
    c << "tunable " << which << " by " << delta << (force ? " forced" : "") << "; ";
    auto x = t.values;
    x[static_cast<std::size_t>(which)] += delta;
    if (force && c.flip())
      h.set_tunable_params_values(x);
    else
      h.set_tunable_params_values(x, force);
    int i = 0;
    for (auto &p : m) {
      if (p.second.is_fixed())
        continue;
      if (i == which) {
        double v = p.second.prior.is_log_scale() ? std::exp(std::log(p.second.value) + delta) : p.second.value + delta;
        if (force)
          v = std::min(std::max(v, p.second.prior.lower_bound()), p.second.prior.upper_bound());
        p.second.value = v;
      }
      ++i;
    }
    compare(c, h, [] { return std::vector<double>(); }, [](const ParameterStore &) { return std::vector<double>(); }, m, false);
    // the logarithm and back may round
    for (auto &p : m)
      p.second.value = h.get_params().at(p.first).value;
    break;
  }
  default: { // reading and writing back changes nothing
    c.assume(all_valid(m));
    c << "write back; ";
    if (c.flip())
      h.set_tunable_params_values(h.get_tunable_parameters().values, c.flip());
    else
      h.set_params(h.get_params());
    compare(c, h, [] { return std::vector<double>(); }, [](const ParameterStore &) { return std::vector<double>(); }, m, false);
    for (auto &p : m)
      p.second.value = h.get_params().at(p.first).value;
    break;
  }
  }
}

void history(mc::Ctx &c, ParameterHandlingMixin &h, const Compute &compute, const Expected &expected, ParameterStore m, int depth) {
  compare(c, h, compute, expected, m);
  c.state(show(m));
  for (int i = 0; i < depth; ++i) {
    operate(c, h, m);
    c.state(show(m));
    compare(c, h, compute, expected, m);
  }
}

// Names of up to four leaves: the pattern says which of them are shared.
struct Leaves {
  std::vector<std::string> names;
  ParameterStore store;
  Parameter at(std::size_t i) const { return store.at(names[i]); }
};
Leaves leaves(mc::Ctx &c, std::size_t n) {
  static const std::vector<std::string> one = {"a"}, two = {"ab", "ba", "aa"}, three = {"abc", "cab", "aab", "aba", "baa", "aaa"},
                                        four = {"abcd", "dcba", "aabb", "abab", "abba", "abca", "abbc", "aaaa"};
  const auto &patterns = n == 1 ? one : n == 2 ? two : n == 3 ? three : four;
  const auto p = c.pick(patterns);
  // initial priors: none, or one leaf fixed / log scale / bounded
  const int kind = c.choose(3), which = kind ? c.choose(static_cast<int>(n)) : 0;
  Leaves out;
  for (std::size_t i = 0; i < n; ++i) {
    out.names.push_back(std::string(1, p[i]));
    out.store[out.names[i]] = Parameter(1. + static_cast<double>(p[i] - 'a'));
  }
  if (kind)
    out.store[out.names[static_cast<std::size_t>(which)]].prior = prior_kinds()[static_cast<std::size_t>(kind)];
  c << p << " " << kind << which << ": ";
  return out;
}

const std::vector<double> XS = {0.5, -1., 2.};

template <typename Cov> void run_cov(mc::Ctx &c, Cov cov, const Expr &e, const Leaves &l, int depth) {
  const auto compute = [&] {
    std::vector<double> out;
    for (double x : XS)
      for (double y : XS)
        out.push_back(cov(x, y));
    const Eigen::MatrixXd m = cov(XS);
    for (Eigen::Index i = 0; i < m.rows(); ++i)
      out.push_back(m(i, 0));
    return out;
  };
  const auto expected = [&](const ParameterStore &s) {
    const auto v = values_of(s);
    std::vector<double> out;
    for (double x : XS)
      for (double y : XS)
        out.push_back(e.f(v, x, y));
    for (double x : XS)
      out.push_back(e.f(v, x, XS[0]));
    return out;
  };
  history(c, cov, compute, expected, l.store, depth);
  // a copy taken before is not affected, a copy taken after agrees
  const Cov copy = cov;
  if (!l.names.empty()) {
    const auto before = copy(XS[0], XS[1]);
    cov.set_param(l.names[0], Parameter(9.));
    c.check(copy(XS[0], XS[1]) == before && copy.get_params().at(l.names[0]).value != 9., "copies-are-independent");
  }
}
template <typename Mean> void run_mean(mc::Ctx &c, Mean mean, const Expr &e, const Leaves &l, int depth) {
  const auto compute = [&] {
    std::vector<double> out;
    for (double x : XS)
      out.push_back(mean(x));
    const Eigen::VectorXd m = mean(XS);
    for (Eigen::Index i = 0; i < m.size(); ++i)
      out.push_back(m[i]);
    return out;
  };
  const auto expected = [&](const ParameterStore &s) {
    const auto v = values_of(s);
    std::vector<double> out;
    for (int k = 0; k < 2; ++k)
      for (double x : XS)
        out.push_back(e.f(v, x, 1.));
    return out;
  };
  history(c, mean, compute, expected, l.store, depth);
}

// Every shape of a tree with up to four leaves.
template <typename F> void shape1(mc::Ctx &c, F f) {
  f(1, [](const auto &a, const auto &, const auto &, const auto &) { return a; });
}
template <typename F> void shape2(mc::Ctx &c, F f) {
  if (c.flip())
    f(2, [](const auto &a, const auto &b, const auto &, const auto &) { return a + b; });
  else
    f(2, [](const auto &a, const auto &b, const auto &, const auto &) { return a * b; });
}
#define SHAPE3(X, Y)                                                           \
  f(3, [](const auto &a, const auto &b, const auto &d, const auto &) { return (a X b) Y d; });
#define SHAPE3R(X, Y)                                                          \
  f(3, [](const auto &a, const auto &b, const auto &d, const auto &) { return a X(b Y d); });
template <typename F> void shape3(mc::Ctx &c, F f) {
  switch (c.choose(8)) {
  case 0:
    SHAPE3(+, +) break;
  case 1:
    SHAPE3(+, *) break;
  case 2:
    SHAPE3(*, +) break;
  case 3:
    SHAPE3(*, *) break;
  case 4:
    SHAPE3R(+, +) break;
  case 5:
    SHAPE3R(+, *) break;
  case 6:
    SHAPE3R(*, +) break;
  default:
    SHAPE3R(*, *) break;
  }
}
#define SHAPE4(EXPR)                                                           \
  f(4, [](const auto &a, const auto &b, const auto &d, const auto &e) { return EXPR; });
template <typename F> void shape4(mc::Ctx &c, F f) {
  switch (c.choose(6)) {
  case 0:
    SHAPE4((a + b) * (d + e)) break;
  case 1:
    SHAPE4((a * b) + (d * e)) break;
  case 2:
    SHAPE4(((a + b) * d) + e) break;
  case 3:
    SHAPE4(a * (b + (d * e))) break;
  case 4:
    SHAPE4(a + ((b * d) + e)) break;
  default:
    SHAPE4((a * (b + d)) * e) break;
  }
}
template <typename F> void any_shape(mc::Ctx &c, int size, F f) {
  if (size == 1)
    shape1(c, f);
  else if (size == 2)
    shape2(c, f);
  else if (size == 3)
    shape3(c, f);
  else
    shape4(c, f);
}

template <typename Leaf, typename Make> void tree(mc::Ctx &c, int size, int depth, Make make, bool mean) {
  any_shape(c, size, [&](std::size_t n, auto shape) {
    const Leaves l = leaves(c, n);
    const auto leaf = [&](std::size_t i) { return i < n ? Leaf(l.names[i], l.at(i), static_cast<int>(i) + 1) : Leaf("z", Parameter(1.), 1); };
    const auto expr = [&](std::size_t i) {
      const std::string nm = i < n ? l.names[i] : "z";
      return mean ? mean_expr(nm, static_cast<int>(i) + 1) : cov_expr(nm, static_cast<int>(i) + 1);
    };
    make(shape(leaf(0), leaf(1), leaf(2), leaf(3)), shape(expr(0), expr(1), expr(2), expr(3)), l, depth);
  });
}

} // namespace

MC_SCENARIO(covariance_trees) {
  const int size = c.range(1, 3);
  tree<CovLeaf>(c, size, mc::tiered(size == 3 ? 1 : 2, size < 3 ? 3 : 2), [&](auto cov, const Expr &e, const Leaves &l, int d) { run_cov(c, cov, e, l, d); }, false);
}
MC_SCENARIO(deeper_covariance_trees) {
  tree<CovLeaf>(c, 4, mc::tiered(1, 2), [&](auto cov, const Expr &e, const Leaves &l, int d) { run_cov(c, cov, e, l, d); }, false);
}
MC_SCENARIO(mean_trees) {
  const int size = c.range(1, 3);
  tree<MeanLeaf>(c, size, mc::tiered(size == 3 ? 1 : 2, size < 3 ? 3 : 2), [&](auto m, const Expr &e, const Leaves &l, int d) { run_mean(c, m, e, l, d); }, true);
}
MC_SCENARIO(deeper_mean_trees) {
  tree<MeanLeaf>(c, 4, mc::tiered(1, 2), [&](auto m, const Expr &e, const Leaves &l, int d) { run_mean(c, m, e, l, d); }, true);
}

// Wrappers: measurement_only and scaling terms on either side.
MC_SCENARIO(wrapped_operands) {
  const int depth = mc::tiered(2, 3);
  const Leaves l = leaves(c, 2);
  const CovLeaf b(l.names[1], l.at(1), 2);
  const ScalingTerm<ScaleLeaf> s(ScaleLeaf(l.names[0], l.at(0), 1));
  const Expr se = scale_expr(l.names[0], 1), be = cov_expr(l.names[1], 2);
  switch (c.choose(4)) {
  case 0:
    c << "s*b ";
    run_cov(c, s * b, se * be, l, depth);
    break;
  case 1:
    c << "b*s ";
    run_cov(c, b * s, be * se, l, depth);
    break;
  case 2: {
    c << "s*(b+b') ";
    run_cov(c, s * (b + b), se * (be + be), l, depth);
    break;
  }
  default: {
    c << "measurement_only(a)+b ";
    const CovLeaf a(l.names[0], l.at(0), 1);
    auto cov = measurement_only(a) + b;
    const Expr ae = cov_expr(l.names[0], 1);
    const auto compute = [&] {
      std::vector<double> out;
      for (double x : XS)
        for (double y : XS) {
          out.push_back(cov(x, y));
          out.push_back(cov(Measurement<double>(x), Measurement<double>(y)));
        }
      return out;
    };
    const auto expected = [&](const ParameterStore &st) {
      const auto v = values_of(st);
      std::vector<double> out;
      for (double x : XS)
        for (double y : XS) {
          out.push_back(be.f(v, x, y));
          out.push_back((ae + be).f(v, x, y));
        }
      return out;
    };
    history(c, cov, compute, expected, l.store, depth);
    break;
  }
  }
}

// Leaves written with the macros, sharing a name with another leaf or not.
MC_SCENARIO(macro_leaves) {
  const bool shared = c.flip();
  const std::string n = shared ? "beta" : "gamma";
  Leaves l;
  l.names = {"alpha", "beta"};
  const int kind = c.choose(3);
  l.store["alpha"] = Parameter(1.25, prior_kinds()[static_cast<std::size_t>(kind)]);
  l.store["beta"] = Parameter(2.);
  if (!shared)
    l.store["gamma"] = Parameter(4.);
  c << n << kind << ": ";
  const MacroLeaf a(l.store["alpha"], l.store["beta"]);
  const CovLeaf b(n, l.store[n], 2);
  const Expr ae = {[](const auto &v, double x, double y) { return v.at("alpha") + v.at("beta") * x * y; }};
  const Expr be = cov_expr(n, 2);
  const int depth = mc::tiered(1, 2);
  if (c.flip())
    run_cov(c, a + b, ae + be, l, depth);
  else
    run_cov(c, b * a, be * ae, l, depth);
}

namespace {

// Models: parameters of the covariance, of the mean and of the model itself.
template <typename Model> void run_model(mc::Ctx &c, Model model, const Expr &cov, const Expr &mean, const ParameterStore &store, int depth) {
  const auto compute = [&] {
    std::vector<double> out;
    const auto joint = model.prior(XS);
    for (Eigen::Index i = 0; i < 3; ++i) {
      out.push_back(joint.mean[i]);
      for (Eigen::Index j = 0; j < 3; ++j)
        out.push_back(joint.covariance(i, j));
    }
    return out;
  };
  const auto expected = [&](const ParameterStore &s) {
    const auto v = values_of(s);
    std::vector<double> out;
    for (std::size_t i = 0; i < 3; ++i) {
      out.push_back(mean.f(v, XS[i], 1.));
      for (std::size_t j = 0; j < 3; ++j)
        out.push_back(cov.f(v, XS[i], XS[j]));
    }
    return out;
  };
  history(c, model, compute, expected, store, depth);
}

struct OwnParamGp : public GaussianProcessBase<CovLeaf, MeanLeaf, OwnParamGp> {
  using Base = GaussianProcessBase<CovLeaf, MeanLeaf, OwnParamGp>;
  OwnParamGp(const CovLeaf &a, const MeanLeaf &b, const std::string &n, const Parameter &p) : Base(a, b, "own"), own(n) { this->params_[n] = p; }
  double own_value() const { return this->params_.at(own).value; }
  std::string own;
};
struct CustomModel : public ModelBase<CustomModel> {
  ALBATROSS_DECLARE_PARAMS(foo, bar)
  CustomModel() {
    foo = Parameter(1.);
    bar = Parameter(2., LogScaleUniformPrior(0.125, 16.));
  }
};

} // namespace

MC_SCENARIO(gaussian_process) {
  const Leaves l = leaves(c, 2);
  const CovLeaf a(l.names[0], l.at(0), 1);
  const MeanLeaf b(l.names[1], l.at(1), 2);
  const bool swap_in = c.flip(); // the mean may be a sum which shares names, too
  const Expr ae = cov_expr(l.names[0], 1), be = mean_expr(l.names[1], 2);
  const int depth = mc::tiered(2, 3);
  if (!swap_in) {
    run_model(c, gp_from_covariance_and_mean(a, b, "gp"), ae, be, l.store, depth);
  } else {
    const MeanLeaf b2(l.names[0], l.at(0), 3);
    run_model(c, gp_from_covariance_and_mean(a, b + b2, "gp"), ae, be + mean_expr(l.names[0], 3), l.store, mc::tiered(1, 2));
  }
}

MC_SCENARIO(gaussian_process_with_own_parameter) {
  const Leaves l = leaves(c, 3);
  OwnParamGp gp(CovLeaf(l.names[0], l.at(0), 1), MeanLeaf(l.names[1], l.at(1), 2), l.names[2], l.at(2));
  const auto compute = [&] {
    const auto joint = gp.prior(XS);
    return std::vector<double>{joint.mean[1], joint.covariance(1, 2), gp.own_value()};
  };
  const auto expected = [&](const ParameterStore &s) {
    const auto v = values_of(s);
    return std::vector<double>{mean_expr(l.names[1], 2).f(v, XS[1], 1.), cov_expr(l.names[0], 1).f(v, XS[1], XS[2]), v.at(l.names[2])};
  };
  history(c, gp, compute, expected, l.store, mc::tiered(1, 2));
}

MC_SCENARIO(sparse_gaussian_process) {
  const Leaves l = leaves(c, 2);
  LeaveOneOutGrouper grouper;
  UniformlySpacedInducingPoints strategy(3);
  auto gp = sparse_gp_from_covariance_and_mean(CovLeaf(l.names[0], l.at(0), 1), MeanLeaf(l.names[1], l.at(1), 2), grouper, strategy, "sparse");
  ParameterStore m = l.store;
  // the nuggets' defaults are the model's own business, but they are there
  const auto all = gp.get_params();
  c.check(all.size() == m.size() + 2, "nuggets-are-parameters", show(all));
  for (const auto &p : all)
    if (!m.count(p.first))
      m[p.first] = p.second;
  run_model(c, gp, cov_expr(l.names[0], 1), mean_expr(l.names[1], 2), m, mc::tiered(1, 2));
}

MC_SCENARIO(models_which_only_hold_parameters) {
  const int depth = mc::tiered(2, 3);
  if (c.flip()) {
    const Leaves l = leaves(c, 2);
    NullModel model(l.store);
    c << "null model ";
    history(c, model, [] { return std::vector<double>(); }, [](const ParameterStore &) { return std::vector<double>(); }, l.store, depth);
  } else {
    CustomModel model;
    c << "custom model ";
    ParameterStore m = {{"foo", Parameter(1.)}, {"bar", Parameter(2., LogScaleUniformPrior(0.125, 16.))}};
    history(c, model, [&] { return std::vector<double>{model.foo.value, model.bar.value}; },
            [](const ParameterStore &s) { return std::vector<double>{s.at("foo").value, s.at("bar").value}; }, m, depth);
  }
}

// Tunable values on, in between and beyond bounds of which many are not the
// exponential of their logarithm.
MC_SCENARIO(values_at_bounds) {
  const int k = c.range(1, mc::tiered(120, 1000)), scale = c.choose(2), at = c.choose(3);
  const double lo = 0.35 * k, hi = 0.35 * k + (k % 3 == 0 ? 1e6 : 1.7 * k), begin = at == 0 ? lo : at == 1 ? hi : 0.5 * (lo + hi);
  const PriorContainer prior = scale ? PriorContainer(LogScaleUniformPrior(lo, hi)) : PriorContainer(UniformPrior(lo, hi));
  CovLeaf leaf("b", Parameter(begin, prior), 1);
  ParameterHandlingMixin &h = leaf;
  std::ostringstream s;
  s.precision(17);
  s << (scale ? "log scale [" : "uniform [") << lo << ", " << hi << "] at " << begin;
  c << s.str();
  c.state(s.str());
  c.step();
  const auto t = h.get_tunable_parameters();
  c.check(t.values.size() == 1, "tunable-parameters", s.str());
  for (const auto &from : {t.values, t.lower_bounds, t.upper_bounds})
    for (const double d : {0., -0.25, 0.25, -40., 40.}) {
      const double raw = scale ? std::exp(from[0] + d) : from[0] + d, want = std::min(hi, std::max(lo, raw));
      h.set_tunable_params_values({from[0] + d});
      c.check(h.get_params().at("b").value == want, "value-within-bounds", s.str());
      c.check(h.params_are_valid(), "tunable-valid", s.str());
      h.set_tunable_params_values({from[0] + d}, false);
      c.check(h.get_params().at("b").value == raw, "value-as-given", s.str());
    }
}

// The same operations on a set of parameters which no function owns: every
// sequence of them, against a plain map.
MC_SCENARIO(stores_of_parameters) {
  const std::vector<PriorContainer> kinds = {FixedPrior(), UniformPrior(-1., 5.), LogScaleUniformPrior(0.25, 9.), PositivePrior(), GaussianPrior(1., 2.), UninformativePrior()};
  ParameterStore store, want;
  const int n = c.range(1, 3);
  const std::vector<std::string> names = {"a", "b", "c"};
  for (int i = 0; i < n; ++i)
    want[names[static_cast<std::size_t>(i)]] = Parameter(i + 0.5, kinds[static_cast<std::size_t>(c.choose(i == 0 ? 3 : 2))]);
  store = want;
  std::string s = "store of " + std::to_string(n);
  auto name = [&] { return names[static_cast<std::size_t>(c.choose(n))]; };
  const int depth = n == 1 ? mc::tiered(2, 3) : 2;
  for (int step = 0; step < depth; ++step) {
    const int op = c.choose(14);
    s += " op " + std::to_string(op);
    c.step();
    switch (op) {
    case 0: case 1: case 2: case 3: case 4: case 5: { // by name
      const auto k = name();
      const auto p = c.pick(kinds);
      const double v = c.pick<double>({0.75, 7.});
      s += " " + k + " " + p.get_name() + " " + std::to_string(v);
      if (op == 0 || op == 3) {
        if (op == 0)
          set_param(k, Parameter(v, p), &store);
        else
          c.check(set_param_if_exists(k, Parameter(v, p), &store), "known-name-is-reported", s);
        want[k].value = v;
        want[k].prior = p;
      } else if (op == 1 || op == 4) {
        if (op == 1)
          set_param_value(k, v, &store);
        else
          c.check(set_param_value_if_exists(k, v, &store), "known-name-is-reported", s);
        want[k].value = v;
      } else {
        if (op == 2)
          set_param_prior(k, p, &store);
        else
          c.check(set_param_prior_if_exists(k, p, &store), "known-name-is-reported", s);
        want[k].prior = p;
      }
      break;
    }
    case 6: case 7: case 8: case 9: { // several at once, perhaps with an unknown one
      ParameterStore in;
      std::map<std::string, double> values;
      const int mask = c.choose(1 << n), unknown = op < 8 ? 0 : c.choose(3);
      for (int i = 0; i < n; ++i)
        if (mask >> i & 1) {
          const auto &k = names[static_cast<std::size_t>(i)];
          in[k] = Parameter(2.5 + i, kinds[static_cast<std::size_t>(i)]);
          values[k] = 2.5 + i;
          want[k].value = 2.5 + i;
          if (op % 2 == 0)
            want[k].prior = kinds[static_cast<std::size_t>(i)];
        }
      if (unknown) { // sorted before or after the known ones
        in[unknown == 1 ? "A" : "z"] = Parameter(1.);
        values[unknown == 1 ? "A" : "z"] = 1.;
      }
      s += " mask " + std::to_string(mask) + " unknown " + std::to_string(unknown);
      if (op == 6)
        set_params(in, &store);
      else if (op == 7)
        set_param_values(values, &store);
      else {
        const bool all = op == 8 ? set_params_if_exists(in, &store) : set_param_values_if_exists(values, &store);
        if (!in.empty())
          c.check(all == (unknown == 0), "unknown-names-are-reported", s);
      }
      break;
    }
    case 10: // an unknown name
      c.check(!set_param_if_exists("z", Parameter(1.), &store) && !set_param_value_if_exists("A", 1., &store) && !set_param_prior_if_exists("z", FixedPrior(), &store), "unknown-name-is-reported", s);
      break;
    case 11: {
      const int how = c.choose(5);
      s += " how " + std::to_string(how);
      c.check(mc::dies([&] {
                switch (how) {
                case 0: set_param("z", Parameter(1.), &store); break;
                case 1: set_param_value("A", 1., &store); break;
                case 2: set_param_prior("z", FixedPrior(), &store); break;
                case 3: set_params({{"a", Parameter(1.)}, {"z", Parameter(1.)}}, &store); break;
                default: set_param_values({{"A", 1.}, {"a", 1.}}, &store);
                }
              }),
              "unknown-name-is-refused", s);
      break;
    }
    default: { // as a tuner does, within the bounds or not
      bool valid = true;
      for (const auto &p : want)
        valid = valid && (p.second.prior.is_fixed() || (p.second.value >= p.second.prior.lower_bound() && p.second.value <= p.second.prior.upper_bound()));
      if (!valid)
        break; // (refused)
      auto t = get_tunable_parameters(store);
      std::size_t i = 0;
      const double by = c.pick<double>({0., 0.5, -30.});
      s += " by " + std::to_string(by);
      for (auto &p : want)
        if (!p.second.prior.is_fixed()) {
          const bool named = i < t.values.size() && t.names.at(i) == p.first;
          c.check(named, "tunable-parameters", s);
          if (!named)
            return;
          const bool log_scale = p.second.prior.is_log_scale();
          c.close(t.values[i], log_scale ? std::log(p.second.value) : p.second.value, "tunable-value", s);
          t.values[i] += by;
          double v = log_scale ? std::exp(t.values[i]) : t.values[i];
          if (op == 12)
            v = std::min(p.second.prior.upper_bound(), std::max(p.second.prior.lower_bound(), v));
          p.second.value = v;
          ++i;
        }
      c.check(i == t.values.size(), "tunable-parameters", s);
      store = set_tunable_params_values(store, t.values, op == 12);
    }
    }
    c << s;
    c.state(s);
    bool same = store.size() == want.size(), valid = true;
    for (const auto &p : want) {
      same = same && store.count(p.first) && store.at(p.first).value == p.second.value && store.at(p.first).prior == p.second.prior;
      valid = valid && p.second.value >= p.second.prior.lower_bound() && p.second.value <= p.second.prior.upper_bound();
    }
    c.check(same && store == want, "what-was-set", s);
    c.check(params_are_valid(store) == valid, "valid-iff-within-bounds", s);
  }
}

// Refusals.
MC_SCENARIO(refusals) {
  const auto p = Parameter(1.);
  auto cov = (CovLeaf("a", p, 1) + CovLeaf("b", p, 2)) * CovLeaf("c", p, 3);
  ParameterHandlingMixin &h = cov;
  const int what = c.choose(12);
  c << "refusal " << what;
  c.state(std::to_string(what));
  c.step();
  bool want = true;
  const bool died = mc::dies([&] {
    switch (what) {
    case 0:
      h.set_param("d", p);
      break;
    case 1:
      h.set_param("d", 1.);
      break;
    case 2:
      h.set_param_value("d", 1.);
      break;
    case 3:
      h.set_prior("d", FixedPrior());
      break;
    case 4:
      h.set_params({{"a", p}, {"d", p}});
      break;
    case 5:
      h.set_param_values({{"a", 1.}, {"d", 1.}});
      break;
    case 6:
      h.set_tunable_params_values({1., 2.});
      break;
    case 7:
      h.set_tunable_params_values({1., 2., 3., 4.});
      break;
    case 8: {
      h.set_param("b", Parameter(1., FixedPrior()));
      h.set_tunable_params_values({1., 2., 3.}); // one too many now
      break;
    }
    case 9: {
      h.set_param("b", Parameter(-1., UniformPrior(0., 2.)));
      h.get_tunable_parameters(); // invalid values are not handed to a tuner
      break;
    }
    case 10: {
      h.set_param("b", Parameter(3., UniformPrior(0., 2.)));
      h.get_tunable_parameters();
      break;
    }
    default:
      h.set_tunable_params_values({1., 2., 3.});
    }
  });
  want = what != 11;
  c.check(died == want, "refused", std::to_string(what));
}
