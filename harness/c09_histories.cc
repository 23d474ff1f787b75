// C09: datasets stay aligned under every sequence of operations.
#include <albatross/Common>
#include <albatross/Dataset>
#include <albatross/Indexing>
#include "mc.h"

using namespace albatross;
using Ix = std::vector<std::size_t>;

namespace {

struct F {
  int a = 0; // compared
  bool operator==(const F &o) const { return a == o.a; }
};
struct Row {
  int a;
  double mean, var;
  bool operator==(const Row &o) const { return a == o.a && mean == o.mean && var == o.var; }
};
using Model = std::vector<Row>;
using Data = RegressionDataset<F>;

std::string show(const Model &m) {
  std::ostringstream os;
  for (const auto &r : m)
    os << r.a << "=" << r.mean << "/" << r.var << " ";
  return os.str();
}
Data dataset(const Model &m) {
  std::vector<F> f;
  const auto n = static_cast<Eigen::Index>(m.size());
  Eigen::VectorXd mean(n), var(n);
  for (Eigen::Index i = 0; i < n; ++i) {
    f.push_back(F{m[static_cast<std::size_t>(i)].a});
    mean[i] = m[static_cast<std::size_t>(i)].mean;
    var[i] = m[static_cast<std::size_t>(i)].var;
  }
  return Data(f, MarginalDistribution(mean, var));
}
bool agrees(const Data &d, const Model &m) {
  const auto n = static_cast<Eigen::Index>(m.size());
  if (d.features.size() != m.size() || d.size() != m.size() || d.targets.mean.size() != n || d.targets.covariance.diagonal().size() != n || d.targets.size() != m.size())
    return false;
  for (std::size_t i = 0; i < m.size(); ++i) {
    const auto k = static_cast<Eigen::Index>(i);
    if (d.features[i].a != m[i].a || d.targets.mean[k] != m[i].mean || d.targets.covariance.diagonal()[k] != m[i].var)
      return false;
  }
  return true;
}
std::string show(const Data &d) {
  std::ostringstream os;
  for (std::size_t i = 0; i < d.features.size(); ++i) {
    os << d.features[i].a << "=";
    const auto k = static_cast<Eigen::Index>(i);
    if (k < d.targets.mean.size())
      os << d.targets.mean[k];
    os << "/";
    if (k < d.targets.covariance.diagonal().size())
      os << d.targets.covariance.diagonal()[k];
    os << " ";
  }
  return os.str();
}
Model take(const Model &m, const Ix &ix) {
  Model out;
  for (auto i : ix)
    out.push_back(m[i]);
  return out;
}
const Model &start(int k) {
  static const std::vector<Model> all{
      {},
      {{1, 1.5, 0.25}},
      {{3, 3.5, 1.}, {1, 1.5, 2.}, {2, 2.5, 3.}},
      {{1, 10., 1.}, {2, 20., 0.}, {1, 30., 3.}, {4, 40., 4.}}, // a repeated feature
      {{5, 5., 9.}, {2, -2., 8.}, {3, -3., 7.}},
  };
  return all[static_cast<std::size_t>(k)];
}

Model last_of_each(const Model &m) {
  Model out;
  for (std::size_t i = 0; i < m.size(); ++i) {
    bool later = false;
    for (std::size_t j = i + 1; j < m.size(); ++j)
      later |= m[j].a == m[i].a;
    if (!later)
      out.push_back(m[i]);
  }
  return out;
}

struct Tagged {
  int a = 0;
  bool operator==(const Tagged &o) const { return a == o.a; }
};

// One operation; returns its name.
std::string apply_one(mc::Ctx &c, Data &d, Model &m) {
  const std::size_t n = m.size();
  switch (c.choose(13)) {
  case 0: { // reverse
    Ix ix;
    for (std::size_t i = n; i > 0; --i)
      ix.push_back(i - 1);
    d = d.subset(ix);
    m = take(m, ix);
    return "reverse";
  }
  case 1: { // keep any two positions (with repetition)
    c.assume(n > 0 && n <= 4);
    const Ix ix{static_cast<std::size_t>(c.choose(static_cast<int>(n))), static_cast<std::size_t>(c.choose(static_cast<int>(n)))};
    d = subset(d, ix);
    m = take(m, ix);
    return "subset";
  }
  case 2: { // leave one out
    c.assume(n > 0 && n <= 4);
    const auto gone = static_cast<std::size_t>(c.choose(static_cast<int>(n)));
    const auto ix = indices_complement({gone}, n);
    d = subset(d, ix);
    m = take(m, ix);
    return "drop";
  }
  case 3: { // append another
    c.assume(n <= 4);
    const int k = c.choose(5);
    d = concatenate_datasets(d, dataset(start(k)));
    m.insert(m.end(), start(k).begin(), start(k).end());
    return "append" + std::to_string(k);
  }
  case 4: { // several at once
    c.assume(n <= 3);
    d = concatenate_datasets(std::vector<Data>{dataset(start(2)), d, dataset(start(0)), d});
    Model w = start(2);
    w.insert(w.end(), m.begin(), m.end());
    w.insert(w.end(), m.begin(), m.end());
    m = w;
    return "join";
  }
  case 5: { // filter
    const int least = c.range(2, 3);
    d = filter(d, [&](const F &f) { return f.a >= least; });
    Model w;
    for (const auto &r : m)
      if (r.a >= least)
        w.push_back(r);
    m = w;
    return "filter" + std::to_string(least);
  }
  case 6: { // group and recombine
    d = d.group_by([](const F &f) { return f.a; }).groups().combine();
    std::stable_sort(m.begin(), m.end(), [](const Row &x, const Row &y) { return x.a < y.a; });
    return "regroup";
  }
  case 7: { // folds and recombine
    c.assume(n > 0);
    d = d.group_by(KFoldGrouper(2)).groups().combine();
    Model w;
    for (std::size_t f = 0; f < 2; ++f)
      for (std::size_t i = f; i < n; i += 2)
        w.push_back(m[i]);
    m = w;
    return "folds";
  }
  case 8:
    d = deduplicate(d);
    m = last_of_each(m);
    return "deduplicate";
  case 9: { // align with another
    const int k = c.range(2, 4);
    auto other = dataset(start(k));
    align_datasets(&d, &other);
    Model w, o;
    for (const auto &r : m)
      for (const auto &s : start(k))
        if (r.a == s.a) {
          w.push_back(r);
          o.push_back(s);
        }
    // with a feature several times on both sides there are several matches:
    // then only the features are compared
    if (last_of_each(start(k)).size() == start(k).size()) {
      c.check(agrees(other, o), "align-other", "got " + show(other) + "expected " + show(o));
      m = w;
    } else {
      c.check(other.features == d.features && other.targets.size() == other.features.size(), "align-other", show(d) + "and " + show(other));
      std::set<int> have, want;
      for (const auto &f : d.features)
        have.insert(f.a);
      for (const auto &r : w)
        want.insert(r.a);
      c.check(have == want, "align-common", show(d));
      // every pair is a genuine row
      for (std::size_t i = 0; i < d.size(); ++i) {
        const Row row{d.features[i].a, d.targets.mean[static_cast<Eigen::Index>(i)], d.targets.covariance.diagonal()[static_cast<Eigen::Index>(i)]};
        c.check(std::find(m.begin(), m.end(), row) != m.end(), "align-rows", show(d));
      }
      m = w;
      if (d.size() != w.size())
        c.assume(false);
    }
    return "align" + std::to_string(k);
  }
  case 10: { // align with itself
    c.assume(last_of_each(m).size() == m.size());
    auto other = d;
    align_datasets(&d, &other, [](const F &x, const F &y) { return x.a == y.a; });
    c.check(agrees(other, m), "align-self", show(other));
    return "align-self";
  }
  case 11: { // with another feature type, and back
    c.assume(n <= 4);
    const RegressionDataset<Tagged> t({Tagged{7}}, MarginalDistribution(70., 0.5));
    const auto both = c.flip() ? concatenate_datasets(d, t) : concatenate_datasets(d, RegressionDataset<Tagged>());
    Ix where;
    std::vector<F> f;
    for (std::size_t i = 0; i < both.size(); ++i)
      both.features[i].match(
          [&](const F &x) {
            where.push_back(i);
            f.push_back(x);
          },
          [](const Tagged &) {});
    const auto part = subset(both, where);
    d = Data(f, part.targets);
    return "mixed";
  }
  default: { // drop whole groups
    d = d.group_by([](const F &f) { return f.a % 2; }).filter([](const int &k, const Data &) { return k == 1; }).combine();
    Model w;
    for (const auto &r : m)
      if (r.a % 2 == 1)
        w.push_back(r);
    m = w;
    return "drop-groups";
  }
  }
}

} // namespace

MC_SCENARIO(histories) {
  const int s = c.choose(5);
  Model m = start(s);
  Data d = dataset(m);
  std::string at = "start" + std::to_string(s);
  for (int k = 0; k < mc::tiered(3, 4); ++k) {
    const Data before = d;
    const Model model_before = m;
    at += " " + apply_one(c, d, m);
    c.step();
    c.state(show(m));
    c.check(agrees(d, m), "alignment", at + ": got " + show(d) + "expected " + show(m));
    c.check(agrees(before, model_before), "source-changed", at);
    c.check(d == dataset(m) && d.targets == dataset(m).targets, "equality", at);
  }
  c << at << "\n";
}

// The same operations on larger datasets, in pairs.
namespace {
Model large(int shape, int n) {
  Model m;
  for (int i = 0; i < n; ++i) {
    const int a[] = {i, n - i, (i * 7) % n, i / 3, i % 5, (i * i) % 11, i == n - 1 ? 0 : i};
    m.push_back(Row{a[shape], 0.5 + i, 1. + 0.25 * i});
  }
  return m;
}
void large_one(mc::Ctx &c, Data &d, Model &m, std::string &at) {
  const int op = c.choose(8);
  at += " op" + std::to_string(op);
  switch (op) {
  case 0:
    d = deduplicate(d);
    m = last_of_each(m);
    break;
  case 1: { // a feature several times on one side only has one meaning
    const int k = c.pick({5, 12, 30});
    Model other = last_of_each(large(c.choose(4), k));
    auto o = dataset(other);
    align_datasets(&d, &o);
    Model w, v;
    for (const auto &r : m)
      for (const auto &s : other)
        if (r.a == s.a) {
          w.push_back(r);
          v.push_back(s);
        }
    c.check(agrees(o, v), "align-other", at + ": got " + show(o) + "expected " + show(v));
    m = w;
    break;
  }
  case 2: {
    Model unique = last_of_each(m);
    auto dd = dataset(unique);
    auto o = dataset(large(0, 20));
    align_datasets(&o, &dd);
    Model w, v;
    for (const auto &r : large(0, 20))
      for (const auto &s : unique)
        if (r.a == s.a) {
          w.push_back(r);
          v.push_back(s);
        }
    c.check(agrees(o, w), "align-other", at + ": got " + show(o) + "expected " + show(w));
    d = dd;
    m = v;
    break;
  }
  case 3:
    d = filter(d, [](const F &f) { return f.a % 4 != 1; });
    m.erase(std::remove_if(m.begin(), m.end(), [](const Row &r) { return r.a % 4 == 1; }), m.end());
    break;
  case 4:
    d = d.group_by([](const F &f) { return f.a % 7; }).groups().combine();
    std::stable_sort(m.begin(), m.end(), [](const Row &x, const Row &y) { return x.a % 7 < y.a % 7; });
    break;
  case 5: {
    const std::size_t k = static_cast<std::size_t>(c.pick({3, 8}));
    c.assume(!m.empty());
    d = d.group_by(KFoldGrouper(k)).groups().combine();
    Model w;
    for (std::size_t f = 0; f < k; ++f)
      for (std::size_t i = f; i < m.size(); i += k)
        w.push_back(m[i]);
    m = w;
    break;
  }
  case 6: {
    d = concatenate_datasets(std::vector<Data>{d, dataset({}), dataset(large(2, 9)), d});
    Model w = m;
    const Model l = large(2, 9);
    w.insert(w.end(), l.begin(), l.end());
    w.insert(w.end(), m.begin(), m.end());
    m = w;
    break;
  }
  default: {
    Ix ix;
    for (std::size_t i = 0; i < m.size(); ++i)
      ix.push_back((i * 5 + 2) % m.size());
    d = d.subset(ix);
    m = take(m, ix);
  }
  }
}
} // namespace
MC_SCENARIO(large_datasets) {
  const int n = c.pick({7, 16, 33, 70}), shape = c.choose(7);
  Model m = large(shape, n);
  Data d = dataset(m);
  std::string at = "n=" + std::to_string(n) + " shape " + std::to_string(shape);
  for (int k = 0; k < 2; ++k) {
    large_one(c, d, m, at);
    c.step();
    c.state(show(m));
    c.check(agrees(d, m), "alignment", at + ": got " + show(d) + "expected " + show(m));
    c.check(d == dataset(m), "equality", at);
    if (!m.empty()) { // any one difference is told
      for (std::size_t i : {std::size_t{0}, m.size() / 2, m.size() - 1}) {
        Model x = m, y = m, z = m;
        x[i].a += 1000;
        y[i].mean += 1e-9;
        z[i].var += 1e-9;
        c.check(!(d == dataset(x)) && !(d == dataset(y)) && !(d == dataset(z)), "equality-decides", at);
      }
    }
  }
}

// Equality is an equivalence, and tells any difference.
MC_SCENARIO(equality) {
  auto small = [&](int n) {
    Model m;
    for (int i = 0; i < n; ++i)
      m.push_back(Row{c.choose(2), static_cast<double>(c.choose(2)), static_cast<double>(1 + c.choose(2))});
    return m;
  };
  const int n = c.range(0, 2), k = c.range(0, 2);
  const Model x = small(n), y = small(k);
  auto a = dataset(x), b = dataset(y);
  c.state(show(x) + "|" + show(y));
  c.check((a == b) == (x == y), "equality-decides", show(x) + " and " + show(y));
  c.check(a == a && (a == b) == (b == a), "equality-symmetric", show(x) + " and " + show(y));
  if (n + k <= 2) {
    auto meta = a;
    meta.metadata["k"] = "v";
    c.check(!(meta == a) && !(a == meta) && meta == meta, "equality-metadata", show(x));
    auto other = meta;
    other.metadata["k"] = "w";
    c.check(!(meta == other), "equality-metadata", show(x));
  }
}

// A dataset of unequal lengths cannot be made.
MC_SCENARIO(refusals) {
  const int n = c.range(0, 3), k = c.range(0, 3);
  c.assume(n != k);
  const std::vector<F> f(static_cast<std::size_t>(n));
  c.state(std::to_string(n) + "," + std::to_string(k));
  const bool marginal = c.flip();
  c.check(mc::dies([&] {
            if (marginal)
              Data(f, MarginalDistribution(Eigen::VectorXd(Eigen::VectorXd::Zero(k))));
            else
              create_dataset(f, MarginalDistribution(Eigen::VectorXd(Eigen::VectorXd::Zero(k)), Eigen::VectorXd(Eigen::VectorXd::Ones(k))));
          }),
          "mismatch-accepted", std::to_string(n) + " features, " + std::to_string(k) + " targets");
}
