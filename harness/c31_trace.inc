// C31: a call trace lists every node of the expression with what it
// contributes.  C31_PART says which expressions are built here.
#include "mc.h"
#include <albatross/Core>
#include <albatross/CovarianceFunctions>

using namespace albatross;

namespace {

struct X {
  bool operator==(const X &) const { return true; }
};
struct Y {
  bool operator==(const Y &) const { return true; }
};

// One term per pattern of definitions.  Each holds a value of its own, some
// have a name which depends on it, one has no default.
struct ForX : public CovarianceFunction<ForX> {
  double v = 0.;
  std::string name() const { return "for_x_" + std::to_string(v); }
  double _call_impl(const X &, const X &) const { return v; }
};
struct ForY : public CovarianceFunction<ForY> {
  double v = 0.;
  double _call_impl(const Y &, const Y &) const { return 3. * v; }
};
struct ForBoth : public CovarianceFunction<ForBoth> {
  double v = 0.;
  std::string name() const { return "for_both"; }
  double _call_impl(const X &, const X &) const { return 5. * v; }
  double _call_impl(const X &, const Y &) const { return -7. * v; }
  double _call_impl(const Y &, const Y &) const { return 9. * v; }
};
struct Cross : public CovarianceFunction<Cross> {
  double v;
  explicit Cross(double v_) : v(v_) {}
  std::string name() const { return "cross_" + std::to_string(v); }
  double _call_impl(const X &, const Y &) const { return v / 3.; }
};
struct Noise : public CovarianceFunction<Noise> {
  double v = 0.;
  std::string name() const { return "noise"; }
  double _call_impl(const Measurement<X> &, const Measurement<X> &) const {
    return v + 1.;
  }
};

// What the harness knows about an expression and a pair of inputs.
struct Node {
  int depth;
  char op; // of the parent
  std::string name;
  bool defined;
  double value;
};
using Nodes = std::vector<Node>;

enum Kind { kX, kY, kM }; // X, Y, Measurement<X>

template <typename T> struct Make;

template <> struct Make<ForX> {
  static ForX cov(const std::vector<double> &v, std::size_t *i) {
    ForX c;
    c.v = v[(*i)++];
    return c;
  }
  static void nodes(const ForX &c, Kind a, Kind b, int d, char op, Nodes *o) {
    o->push_back({d, op, c.name(), a != kY && b != kY, c.v});
  }
};
template <> struct Make<ForY> {
  static ForY cov(const std::vector<double> &v, std::size_t *i) {
    ForY c;
    c.v = v[(*i)++];
    return c;
  }
  static void nodes(const ForY &c, Kind a, Kind b, int d, char op, Nodes *o) {
    o->push_back({d, op, typeid(ForY).name(), a == kY && b == kY, 3. * c.v});
  }
};
template <> struct Make<ForBoth> {
  static ForBoth cov(const std::vector<double> &v, std::size_t *i) {
    ForBoth c;
    c.v = v[(*i)++];
    return c;
  }
  static void nodes(const ForBoth &c, Kind a, Kind b, int d, char op,
                    Nodes *o) {
    const int ys = (a == kY) + (b == kY);
    o->push_back({d, op, "for_both", true,
                  (ys == 0   ? 5.
                   : ys == 1 ? -7.
                             : 9.) *
                      c.v});
  }
};
template <> struct Make<Cross> {
  static Cross cov(const std::vector<double> &v, std::size_t *i) {
    return Cross(v[(*i)++]);
  }
  static void nodes(const Cross &c, Kind a, Kind b, int d, char op, Nodes *o) {
    o->push_back({d, op, c.name(), (a == kY) + (b == kY) == 1, c.v / 3.});
  }
};
template <> struct Make<Noise> {
  static Noise cov(const std::vector<double> &v, std::size_t *i) {
    Noise c;
    c.v = v[(*i)++];
    return c;
  }
  static void nodes(const Noise &c, Kind a, Kind b, int d, char op, Nodes *o) {
    o->push_back({d, op, "noise", a == kM && b == kM, c.v + 1.});
  }
};

// Expressions as types of the harness, so that what is expected does not pass
// through the members of the library's sums and products.
template <typename L, typename R> struct Plus {};
template <typename L, typename R> struct Times {};

template <typename T> struct Tree {
  T cov;
  Tree(const std::vector<double> &v, std::size_t *i)
      : cov(Make<T>::cov(v, i)) {}
  void nodes(Kind a, Kind b, int d, char op, Nodes *o) const {
    Make<T>::nodes(cov, a, b, d, op, o);
  }
  auto build() const { return cov; }
  std::string shape() const { return cov.get_name(); }
  static constexpr std::size_t leaves = 1;
};

inline void combine(bool plus, const Node &l, const Node &r, Node *out) {
  out->defined = l.defined || r.defined;
  if (l.defined && r.defined) {
    out->value = plus ? l.value + r.value : l.value * r.value;
  } else {
    out->value = l.defined ? l.value : r.value;
  }
}

template <typename L, typename R, bool PLUS> struct Binary {
  Tree<L> l;
  Tree<R> r;
  Binary(const std::vector<double> &v, std::size_t *i) : l(v, i), r(v, i) {}
  void nodes(Kind a, Kind b, int d, char op, Nodes *o) const {
    const std::size_t me = o->size();
    o->push_back({d, op, "", false, 0.});
    const char mine = PLUS ? '+' : '*';
    l.nodes(a, b, d + 1, mine, o);
    const std::size_t right = o->size();
    r.nodes(a, b, d + 1, mine, o);
    (*o)[me].name = "(" + (*o)[me + 1].name + mine + (*o)[right].name + ")";
    combine(PLUS, (*o)[me + 1], (*o)[right], &(*o)[me]);
  }
  static constexpr std::size_t leaves = Tree<L>::leaves + Tree<R>::leaves;
};
template <typename L, typename R>
struct Tree<Plus<L, R>> : public Binary<L, R, true> {
  using Binary<L, R, true>::Binary;
  auto build() const { return this->l.build() + this->r.build(); }
};
template <typename L, typename R>
struct Tree<Times<L, R>> : public Binary<L, R, false> {
  using Binary<L, R, false>::Binary;
  auto build() const { return this->l.build() * this->r.build(); }
};

// Takes the depth and the operator off the front of what a trace prints.
struct Row {
  int depth = 0;
  char op = 0;
  std::string text;
};
inline Row parse(const std::string &s) {
  Row row;
  std::size_t i = 0;
  while (i < s.size()) {
    if (s[i] == '|') {
      ++row.depth;
      row.op = 0;
    } else if ((s[i] == '+' || s[i] == '*') && row.depth > 0) {
      row.op = s[i];
    } else if (s[i] != ' ') {
      break;
    }
    ++i;
  }
  row.text = s.substr(i);
  return row;
}

inline std::string text_of(double v) {
  std::ostringstream oss;
  oss << std::setprecision(17) << v;
  return oss.str();
}

inline bool same(double a, double b) {
  return a == b || std::fabs(a - b) <= 1e-15 * std::fabs(b);
}

template <typename Cov, typename A, typename B>
void check_pair(mc::Ctx &c, const Cov &cov, const Nodes &want, const A &a,
                const B &b) {
  c.step(1);
  const auto trace = cov.call_trace().get_trace(a, b);
  std::ostringstream oss;
  for (const auto &cv : trace) {
    oss << cv.value << "   " << cv.call_name << "\n";
  }
  c << "trace:\n" << oss.str();
  c.check(trace.size() == want.size(), "trace-lists-every-node",
          "a trace does not list each node once");
  if (trace.size() != want.size()) {
    return;
  }
  for (std::size_t i = 0; i < want.size(); ++i) {
    const Row name = parse(trace[i].call_name);
    const Row value = parse(trace[i].value);
    c.check(name.depth == want[i].depth && value.depth == want[i].depth,
            "trace-depth", "a node is listed at another depth or place");
    c.check(name.text == want[i].name, "trace-name",
            "a node is listed with another name: " + name.text + " for " +
                want[i].name);
    // The first row below a node says how its children are combined.
    if (i > 0) {
      c.check(name.op == want[i].op && value.op == want[i].op, "trace-operator",
              "a child is listed with another operator");
    }
    if (!want[i].defined) {
      c.check(value.text == "UNDEFINED", "trace-undefined",
              "a part which is not defined for the inputs has a value");
    } else {
      c.check(value.text != "UNDEFINED", "trace-defined",
              "a part which is defined for the inputs is marked undefined");
      if (value.text != "UNDEFINED") {
        const double got = std::strtod(value.text.c_str(), nullptr);
        c.check(same(got, want[i].value), "trace-value",
                "a node is listed with value " + value.text + " not " +
                    text_of(want[i].value));
      }
    }
  }
  if constexpr (has_call_operator<Cov, A &, B &>::value) {
    const double direct = cov(a, b);
    const double root =
        std::strtod(parse(trace[0].value).text.c_str(), nullptr);
    c.check(want[0].defined, "covariance-defined-unexpectedly",
            "the covariance is defined where none of its parts is");
    c.check(same(root, direct), "trace-root",
            "the first value is not the covariance itself");
  } else {
    c.check(!want[0].defined, "covariance-undefined",
            "the covariance is not defined where one of its parts is");
  }
  // Printed, there is one line per node, in order.
  std::ostringstream printed;
  auto *old = std::cout.rdbuf(printed.rdbuf());
  auto call_trace = cov.call_trace();
  call_trace.print(a, b);
  std::cout.rdbuf(old);
  std::istringstream lines(printed.str());
  std::string line;
  std::size_t at = 0;
  while (std::getline(lines, line)) {
    if (at < trace.size() && line.find(trace[at].value) == 0 &&
        line.find(trace[at].call_name, trace[at].value.size()) !=
            std::string::npos) {
      ++at;
    }
  }
  c.check(at == trace.size(), "trace-printed",
          "what is printed does not list the trace line by line");
}

template <typename T> void check_tree(mc::Ctx &c) {
  std::vector<double> values;
  const std::vector<double> all = {1.5,           -2.,        1.e-9, 0.,
                                   12345.6789012, 1. / 3.e20, -3.e15};
  // every leaf takes a value of its own: all choices for up to two leaves, one
  // offset and stride for more
  if (Tree<T>::leaves <= 2 || mc::thorough()) {
    for (std::size_t i = 0; i < Tree<T>::leaves; ++i) {
      const bool few = Tree<T>::leaves > 2;
      values.push_back(few ? c.pick<double>({1.5, -1.e-9, 12345.6789012})
                           : c.pick(all));
    }
  } else {
    const int offset = c.choose(7);
    const int stride = 1 + c.choose(3);
    for (std::size_t i = 0; i < Tree<T>::leaves; ++i) {
      values.push_back(all[(offset + stride * i) % all.size()]);
    }
  }
  std::size_t used = 0;
  Tree<T> tree(values, &used);
  const auto cov = tree.build();
  const int pair = c.choose(7);
  static const Kind lefts[] = {kX, kX, kY, kY, kM, kM, kX};
  static const Kind rights[] = {kX, kY, kX, kY, kM, kX, kM};
  Nodes want;
  tree.nodes(lefts[pair], rights[pair], 0, 0, &want);
  c << want[0].name << " for a pair of inputs of kinds " << int(lefts[pair])
    << " and " << int(rights[pair]) << " (0: X, 1: Y, 2: measurement of X)\n";
  std::ostringstream state;
  state << want[0].name << pair;
  for (double v : values) {
    state << ' ' << v;
  }
  c.state(state.str());
  c.check(cov.get_name() == want[0].name, "expression-name",
          "an expression has another name than its parts say");
  X x;
  Y y;
  Measurement<X> m(x);
  switch (pair) {
  case 0:
    return check_pair(c, cov, want, x, x);
  case 1:
    return check_pair(c, cov, want, x, y);
  case 2:
    return check_pair(c, cov, want, y, x);
  case 3:
    return check_pair(c, cov, want, y, y);
  case 4:
    return check_pair(c, cov, want, m, m);
  case 5:
    return check_pair(c, cov, want, m, x);
  default:
    return check_pair(c, cov, want, x, m);
  }
}

template <typename... Ts> struct List {
  static constexpr int size = sizeof...(Ts);
};
template <typename... Ts> void check_any(mc::Ctx &c, List<Ts...>) {
  using Fn = void (*)(mc::Ctx &);
  static const Fn fns[] = {&check_tree<Ts>...};
  fns[c.choose(int(sizeof...(Ts)))](c);
}

template <typename... A, typename... B>
List<A..., B...> join(List<A...>, List<B...>);
inline List<> join_all();
template <typename A> A join_all(A);
template <typename A, typename B, typename... R>
auto join_all(A, B,
              R...) -> decltype(join_all(decltype(join(A(), B()))(), R()...));

// Every sum and product of a tree of one list and a tree of another.
template <typename L, typename... R>
auto row(L, List<R...>) -> List<Plus<L, R>..., Times<L, R>...>;
template <typename... L, typename R>
auto pairs(List<L...>,
           R) -> decltype(join_all(decltype(row(std::declval<L>(), R()))()...));

} // namespace
