// C08: grouping partitions the data; split-apply-combine is faithful.
#include <albatross/Common>
#include <albatross/Dataset>
#include <albatross/Indexing>
#include "mc.h"

using namespace albatross;
using Ix = std::vector<std::size_t>;

namespace {

struct Item {
  int id = -1;  // identity
  int key = 0;  // what the grouper looks at
  bool operator==(const Item &o) const { return id == o.id && key == o.key; }
};
std::string show(const std::vector<Item> &v) {
  std::string s;
  for (const auto &x : v)
    s += std::to_string(x.id) + ":" + std::to_string(x.key) + " ";
  return s;
}
std::string show(const Ix &v) {
  std::string s;
  for (auto x : v)
    s += std::to_string(x) + " ";
  return s;
}

std::vector<Item> items(mc::Ctx &c, int n, int keys) {
  std::vector<Item> out;
  for (int i = 0; i < n; ++i)
    out.push_back(Item{100 + i, c.choose(keys)});
  return out;
}

MarginalDistribution targets_of(const std::vector<Item> &xs) {
  Eigen::VectorXd m(static_cast<Eigen::Index>(xs.size())), v(m.size());
  for (Eigen::Index i = 0; i < m.size(); ++i) {
    m[i] = 0.5 * xs[static_cast<std::size_t>(i)].id;
    v[i] = 2. * xs[static_cast<std::size_t>(i)].id;
  }
  return MarginalDistribution(m, v);
}
bool intact(const RegressionDataset<Item> &d) {
  if (d.targets.size() != d.features.size())
    return false;
  for (std::size_t i = 0; i < d.size(); ++i)
    if (d.targets.mean[static_cast<Eigen::Index>(i)] != 0.5 * d.features[i].id ||
        d.targets.covariance.diagonal()[static_cast<Eigen::Index>(i)] != 2. * d.features[i].id)
      return false;
  return true;
}
const std::vector<Item> &features(const std::vector<Item> &v) { return v; }
const std::vector<Item> &features(const RegressionDataset<Item> &d) { return d.features; }
bool whole(const std::vector<Item> &) { return true; }
bool whole(const RegressionDataset<Item> &d) { return intact(d); }

// Everything a GroupBy offers, against the index lists computed by hand.
template <typename Key, typename Grouped_, typename Value>
void everything(mc::Ctx &c, const Grouped_ &g, const Value &parent, const std::map<Key, Ix> &want, const std::string &at) {
  const auto &xs = features(parent);
  std::vector<Key> keys;
  for (const auto &p : want)
    keys.push_back(p.first);

  // the index lists
  std::map<Key, Ix> got;
  for (const auto &p : g.indexers())
    got[p.first] = p.second;
  c.check(got == want, "indexers", at);
  c.check(g.keys() == keys && g.size() == want.size(), "keys", at);
  // groups
  const auto groups = g.groups();
  bool ok = groups.size() == want.size();
  for (const auto &p : groups) {
    const auto it = want.find(p.first);
    if (it == want.end()) {
      ok = false;
      break;
    }
    std::vector<Item> w;
    for (auto i : it->second)
      w.push_back(xs[i]);
    ok &= features(p.second) == w && whole(p.second) && features(g.get_group(p.first)) == w && whole(g.get_group(p.first));
  }
  c.check(ok, "groups", at);
  // counts
  const auto counts = g.counts();
  ok = counts.size() == want.size();
  for (const auto &p : want)
    ok &= counts.at(p.first) == p.second.size();
  c.check(ok, "counts", at);
  if (!want.empty()) {
    const auto first = g.first_group();
    c.check(first.first == keys.front() && features(first.second) == features(groups.at(keys.front())) && whole(first.second), "first-group", at);
    c.check(groups.first_group().first == keys.front() && features(groups.first_value()) == features(groups.at(keys.front())) &&
                features(groups.last_value()) == features(groups.at(keys.back())),
            "first-and-last-value", at);
  }
  // apply: once per group, in key order, with that group
  std::vector<Key> called;
  std::vector<std::vector<Item>> seen;
  const auto sizes = g.apply([&](const Key &k, const Value &v) {
    called.push_back(k);
    seen.push_back(features(v));
    return features(v).size();
  });
  ok = called == keys && sizes.size() == keys.size();
  for (std::size_t i = 0; ok && i < keys.size(); ++i)
    ok &= seen[i] == features(groups.at(keys[i])) && sizes.at(keys[i]) == seen[i].size();
  c.check(ok, "apply", at);
  seen.clear();
  const auto ids = g.apply([&](const Value &v) {
    seen.push_back(features(v));
    double s = 0;
    for (const auto &x : features(v))
      s += x.id;
    return s;
  });
  ok = seen.size() == keys.size() && ids.size() == keys.size();
  double total = 0, group_total = 0;
  for (std::size_t i = 0; ok && i < keys.size(); ++i)
    ok &= seen[i] == features(groups.at(keys[i]));
  for (const auto &x : xs)
    total += x.id;
  for (const auto &p : ids)
    group_total += p.second;
  c.check(ok && total == group_total && (keys.empty() || ids.sum() == total), "apply-value", at);
  called.clear();
  g.apply([&](const Key &k, const Value &) { called.push_back(k); });
  c.check(called == keys, "apply-void", at);
  std::size_t void_calls = 0;
  g.apply([&](const Value &) { ++void_calls; });
  c.check(void_calls == keys.size(), "apply-void-value", at);
  // index_apply
  std::map<Key, Ix> indexed;
  g.index_apply([&](const Key &k, const Ix &ix) { indexed[k] = ix; });
  c.check(indexed == want, "index-apply-void", at);
  const auto firsts = g.index_apply([](const Key &, const Ix &ix) { return ix.front(); });
  const auto firsts2 = g.indexers().index_apply([](const Key &, const Ix &ix) { return ix.front(); });
  ok = firsts.size() == want.size() && firsts2.size() == want.size();
  for (const auto &p : want)
    ok &= firsts.at(p.first) == p.second.front() && firsts2.at(p.first) == p.second.front();
  c.check(ok, "index-apply", at);
  // combine: every element once, group after group
  std::vector<Item> joined;
  for (const auto &p : want)
    for (auto i : p.second)
      joined.push_back(xs[i]);
  const auto combined = groups.combine();
  c.check(features(combined) == joined && whole(combined), "combine", at);
  // with: two things split the same way
  std::vector<double> other;
  for (std::size_t i = 0; i < xs.size(); ++i)
    other.push_back(3.5 * static_cast<double>(i));
  const auto paired = g.with(other);
  const auto paired2 = g.with(counts);
  ok = paired.size() == want.size() && paired2.size() == want.size();
  for (const auto &p : want) {
    std::vector<double> w;
    for (auto i : p.second)
      w.push_back(3.5 * static_cast<double>(i));
    ok &= paired.at(p.first).second == w && features(paired.at(p.first).first) == features(groups.at(p.first)) &&
          paired2.at(p.first).second == p.second.size() && features(paired2.at(p.first).first) == features(groups.at(p.first));
  }
  c.check(ok, "with", at);
  // filter: every subset of the groups, by key and by value
  Ix keep;
  if (keys.size() <= 6) {
    keep = c.subset(keys.size());
  } else {
    const int pattern = c.choose(6);
    for (std::size_t k = 0; k < keys.size(); ++k)
      if (pattern == 0 || (pattern == 1 && k % 2) || (pattern == 2 && k + 1 < keys.size()) || (pattern == 3 && k > 0) || (pattern == 4 && k == keys.size() / 2))
        keep.push_back(k);
  }
  std::vector<Item> kept_items;
  std::set<Key> kept;
  for (auto k : keep) {
    kept.insert(keys[k]);
    for (auto i : want.at(keys[k]))
      kept_items.push_back(xs[i]);
  }
  auto by_key = [&](const Key &k, const Value &) { return kept.count(k) > 0; };
  auto by_value = [&](const Value &v) {
    for (const auto &p : want)
      if (!features(v).empty() && xs[p.second.front()] == features(v).front())
        return kept.count(p.first) > 0;
    return false;
  };
  const auto f1 = g.filter(by_key), f2 = g.filter(by_value), f3 = groups.filter(by_key);
  const auto chosen = f1.keys();
  c.check(std::set<Key>(chosen.begin(), chosen.end()) == kept && f2.keys() == chosen && f3.keys() == chosen, "filter-groups", at);
  c.check(features(f1.combine()) == kept_items && features(f2.combine()) == kept_items && features(f3.combine()) == kept_items && whole(f1.combine()), "filter-combine", at);
  // the indices of some groups, in the order asked for
  std::vector<Key> asked(kept.rbegin(), kept.rend());
  Ix asked_ix;
  for (const auto &k : asked)
    asked_ix.insert(asked_ix.end(), want.at(k).begin(), want.at(k).end());
  c.check(indices_from_groups(g.indexers(), asked) == asked_ix, "indices-from-groups", at);
  // split again after combining: still the same groups
  c.step(20);
}

template <typename Key, typename F> std::map<Key, Ix> by_hand(const std::vector<Item> &xs, F f) {
  std::map<Key, Ix> out;
  for (std::size_t i = 0; i < xs.size(); ++i)
    out[f(xs[i])].push_back(i);
  return out;
}

} // namespace

MC_SCENARIO(group_by_function) {
  const int n = c.range(0, mc::tiered(5, 6));
  const auto xs = items(c, n, n == 0 ? 1 : 3);
  const RegressionDataset<Item> data(xs, targets_of(xs));
  c.state("g" + show(xs));
  const int how = c.choose(3);
  const std::string at = show(xs) + " form " + std::to_string(how);
  if (how == 0) {
    auto f = [](const Item &x) { return x.key; };
    const auto want = by_hand<int>(xs, f);
    if (c.flip())
      everything<int>(c, group_by(xs, f), xs, want, at);
    else
      everything<int>(c, data.group_by(f), data, want, at);
  } else if (how == 1) { // keys which sort differently from how they appear
    auto f = [](const Item &x) { return std::string(x.key == 0 ? "c" : x.key == 1 ? "a" : "b"); };
    const auto want = by_hand<std::string>(xs, f);
    if (c.flip())
      everything<std::string>(c, group_by(xs, f), xs, want, at);
    else
      everything<std::string>(c, group_by(data, f), data, want, at);
  } else { // a grouper with state, bool keys
    struct G {
      int pivot;
      bool operator()(const Item &x) const { return x.key > pivot; }
    } f{c.range(0, 1)};
    const auto want = by_hand<bool>(xs, f);
    if (c.flip())
      everything<bool>(c, group_by(xs, f), xs, want, at);
    else
      everything<bool>(c, data.group_by(f), data, want, at);
  }
}

MC_SCENARIO(leave_one_out_and_k_fold) {
  const int n = c.range(0, mc::tiered(7, 9));
  std::vector<Item> xs;
  for (int i = 0; i < n; ++i)
    xs.push_back(Item{100 + i, 0});
  const RegressionDataset<Item> data(xs, targets_of(xs));
  const int k = c.range(0, n + 2); // 0: leave one out
  const bool vec = c.flip();
  const std::string at = "n=" + std::to_string(n) + " k=" + std::to_string(k);
  c.state(at);
  std::map<std::size_t, Ix> got;
  if (k == 0) {
    const auto ix = vec ? group_by(xs, LeaveOneOutGrouper()).indexers() : data.group_by(LeaveOneOutGrouper()).indexers();
    for (const auto &p : ix)
      got[p.first] = p.second;
    c.check(got.size() == xs.size(), "leave-one-out", at);
    std::map<std::size_t, Ix> want;
    for (std::size_t i = 0; i < xs.size(); ++i)
      want[i] = {i};
    c.check(got == want, "leave-one-out", at);
  } else {
    const auto ix = vec ? group_by(xs, KFoldGrouper(static_cast<std::size_t>(k))).indexers()
                        : data.group_by(KFoldGrouper(static_cast<std::size_t>(k))).indexers();
    std::size_t least = 1000, most = 0;
    Ix all;
    for (const auto &p : ix) {
      got[p.first] = p.second;
      least = std::min(least, p.second.size());
      most = std::max(most, p.second.size());
      all.insert(all.end(), p.second.begin(), p.second.end());
      c.check(std::is_sorted(p.second.begin(), p.second.end()), "k-fold-order", at);
    }
    std::sort(all.begin(), all.end());
    Ix want;
    for (std::size_t i = 0; i < xs.size(); ++i)
      want.push_back(i);
    c.check(all == want, "k-fold-partition", at);
    c.check(got.size() == static_cast<std::size_t>(std::min(n, k)), "k-fold-count", at);
    c.check(n == 0 || most - least <= 1, "k-fold-balance", at + " sizes " + std::to_string(least) + ".." + std::to_string(most));
  }
  // and through the whole machinery
  c.assume(n <= 4);
  if (k == 0) {
    if (vec)
      everything<std::size_t>(c, group_by(xs, LeaveOneOutGrouper()), xs, got, at);
    else
      everything<std::size_t>(c, data.group_by(LeaveOneOutGrouper()), data, got, at);
  } else {
    if (vec)
      everything<std::size_t>(c, group_by(xs, KFoldGrouper(static_cast<std::size_t>(k))), xs, got, at);
    else
      everything<std::size_t>(c, data.group_by(KFoldGrouper(static_cast<std::size_t>(k))), data, got, at);
  }
}

// Larger collections, many groups.
MC_SCENARIO(many_groups) {
  const int n = c.pick({8, 12, 17, 33, 65});
  const int shape = c.choose(6), how = c.choose(4);
  const bool vec = c.flip();
  std::vector<Item> xs;
  for (int i = 0; i < n; ++i) {
    const int key[] = {i % 3, i / 4, (i * 7) % 11, n - i, i < n / 2 ? 0 : i, (i * i) % 5};
    xs.push_back(Item{100 + i, key[shape]});
  }
  const RegressionDataset<Item> data(xs, targets_of(xs));
  const std::string at = "n=" + std::to_string(n) + " shape " + std::to_string(shape) + " form " + std::to_string(how);
  c.state(at);
  auto run = [&](auto f, const auto &want) {
    using Key = typename std::decay<decltype(want.begin()->first)>::type;
    if (vec)
      everything<Key>(c, group_by(xs, f), xs, want, at);
    else
      everything<Key>(c, data.group_by(f), data, want, at);
  };
  if (how == 0) {
    auto f = [](const Item &x) { return x.key; };
    run(f, by_hand<int>(xs, f));
  } else if (how == 1) {
    auto f = [](const Item &x) { return std::to_string(x.key); };
    run(f, by_hand<std::string>(xs, f));
  } else if (how == 2) {
    auto f = [](const Item &x) { return -7L * x.key; };
    run(f, by_hand<long>(xs, f));
  } else {
    const int k = c.pick({0, 2, 3, 5, 8, 16, 40});
    std::map<std::size_t, Ix> got;
    Ix all;
    std::size_t least = 1000, most = 0;
    auto collect = [&](const auto &ix) {
      for (const auto &p : ix) {
        got[p.first] = p.second;
        least = std::min(least, p.second.size());
        most = std::max(most, p.second.size());
        all.insert(all.end(), p.second.begin(), p.second.end());
        c.check(std::is_sorted(p.second.begin(), p.second.end()), "k-fold-order", at);
      }
    };
    if (k == 0)
      collect(data.group_by(LeaveOneOutGrouper()).indexers());
    else
      collect(data.group_by(KFoldGrouper(static_cast<std::size_t>(k))).indexers());
    std::sort(all.begin(), all.end());
    Ix every;
    for (std::size_t i = 0; i < xs.size(); ++i)
      every.push_back(i);
    c.check(all == every, "k-fold-partition", at);
    c.check(got.size() == static_cast<std::size_t>(k == 0 ? n : std::min(n, k)), "k-fold-count", at);
    c.check(most - least <= 1 && (k > 0 || most == 1), "k-fold-balance", at);
    if (k == 0)
      run(LeaveOneOutGrouper(), got);
    else
      run(KFoldGrouper(static_cast<std::size_t>(k)), got);
  }
}

// Chains of split, filter, combine and split again.
MC_SCENARIO(chains) {
  const int n = c.range(0, 4);
  auto xs = items(c, n, 2);
  RegressionDataset<Item> data(xs, targets_of(xs));
  std::string at = show(xs);
  for (int step = 0; step < mc::tiered(3, 4); ++step) {
    const int op = c.choose(5);
    at += " op" + std::to_string(op);
    auto key = [](const Item &x) { return -x.key; };
    auto parity = [](const Item &x) { return x.id % 2; };
    std::vector<Item> want;
    switch (op) {
    case 0: // split by key and recombine
      for (int k : {1, 0})
        for (const auto &x : xs)
          if (x.key == k)
            want.push_back(x);
      data = data.group_by(key).groups().combine();
      break;
    case 1: // drop the even ones
      for (const auto &x : xs)
        if (x.id % 2)
          want.push_back(x);
      data = data.group_by(parity).filter([](const int &k, const RegressionDataset<Item> &) { return k == 1; }).combine();
      break;
    case 2: // keep groups of at least two
      for (int k : {1, 0}) {
        std::vector<Item> g;
        for (const auto &x : xs)
          if (x.key == k)
            g.push_back(x);
        if (g.size() >= 2)
          want.insert(want.end(), g.begin(), g.end());
      }
      data = data.group_by(key).filter([](const RegressionDataset<Item> &d) { return d.size() >= 2; }).combine();
      break;
    case 3: // the first of every group
      for (int k : {1, 0})
        for (const auto &x : xs)
          if (x.key == k) {
            want.push_back(x);
            break;
          }
      data = data.group_by(key).apply([](const RegressionDataset<Item> &d) { return subset(d, Ix{0}); }).combine();
      break;
    case 4: // reverse inside each fold
      for (std::size_t f = 0; f < 2; ++f) {
        std::vector<Item> g;
        for (std::size_t i = f; i < xs.size(); i += 2)
          g.push_back(xs[i]);
        want.insert(want.end(), g.rbegin(), g.rend());
      }
      data = data.group_by(KFoldGrouper(2))
                 .apply([](const RegressionDataset<Item> &d) {
                   Ix r;
                   for (std::size_t i = d.size(); i > 0; --i)
                     r.push_back(i - 1);
                   return subset(d, r);
                 })
                 .combine();
      if (xs.size() < 2)
        want = xs;
      break;
    }
    xs = want;
    c.step();
    c.state("chain" + show(xs));
    c.check(data.features == xs, "chain-elements", at);
    c.check(intact(data), "chain-alignment", at);
  }
}

// What a grouped result offers: minimum, maximum, sums, all, any, erase, combine of numbers.
MC_SCENARIO(grouped_results) {
  const int n = c.range(0, mc::tiered(4, 5));
  std::map<int, double> m;
  std::map<int, bool> b;
  std::map<int, Eigen::VectorXd> v;
  std::vector<double> flat, vflat;
  for (int i = 0; i < n; ++i) {
    const int val = c.choose(3);
    m[-i * 3] = val - 1.;
    b[-i * 3] = val > 0;
    v[-i * 3] = Eigen::VectorXd::LinSpaced(3 * val, 10. * i + val, 10. * i + 9.);
  }
  std::string at;
  for (const auto &p : m) {
    flat.push_back(p.second);
    at += std::to_string(p.second) + " ";
  }
  for (const auto &p : v)
    for (Eigen::Index k = 0; k < p.second.size(); ++k)
      vflat.push_back(p.second[k]);
  c.state("res" + at);
  Grouped<int, double> g(m);
  Grouped<int, bool> gb(b);
  Grouped<int, Eigen::VectorXd> gv(v);
  double sum = 0;
  bool all = true, any = false;
  for (double x : flat)
    sum += x;
  for (const auto &p : b) {
    all &= p.second;
    any |= p.second;
  }
  c.check(g.sum() == sum, "sum", at);
  if (n > 0)
    c.close(g.mean(), sum / n, "mean", at);
  c.check(gb.all() == all && gb.any() == any, "all-any", at);
  if (n > 0) {
    const double lo = *std::min_element(flat.begin(), flat.end()), hi = *std::max_element(flat.begin(), flat.end());
    c.check(g.min_value() == lo && m.at(g.min_key()) == lo && g.max_value() == hi && m.at(g.max_key()) == hi, "min-max", at);
    c.check(g.first_value() == m.begin()->second && g.last_value() == m.rbegin()->second && g.first_group().first == m.begin()->first, "first-last", at);
  }
  const Eigen::VectorXd comb = combine(g), cv = gv.combine();
  c.check(std::vector<double>(comb.data(), comb.data() + comb.size()) == flat, "combine-numbers", at);
  c.check(std::vector<double>(cv.data(), cv.data() + cv.size()) == vflat, "combine-vectors", at);
  c.check(g.get_map() == m && g.values() == flat && g.size() == m.size(), "grouped-map", at);
  const int gone = -3 * c.range(0, 4);
  auto h = g;
  const auto erased = h.erase(gone);
  auto w = m;
  c.check(erased == w.erase(gone) && h.get_map() == w && (h == g) == (w == m), "erase", at);
  c.check((g.find(gone) == g.end()) == (m.find(gone) == m.end()), "find", at);
  c.step(10);
}

// What does not fit the groups is refused.
MC_SCENARIO(grouped_with_others) {
  const int n = c.range(0, 5), m = c.range(0, 7), form = c.choose(3);
  std::vector<int> values;
  std::vector<double> other;
  for (int i = 0; i < n; ++i)
    values.push_back(3 * i + 1);
  for (int i = 0; i < m; ++i)
    other.push_back(-i);
  const std::string at = std::to_string(n) + " with " + std::to_string(m) + " form " + std::to_string(form);
  c << at;
  c.state(at);
  c.step();
  const auto grouped = group_by(values, [](const int &x) { return x % 2; });
  std::map<int, double> by_key;
  for (int i = 0; i < m; ++i)
    by_key[n == 1 ? i + 1 : i] = 0.5 * i; // (the only value is odd)
  const int n_groups = n == 0 ? 0 : n == 1 ? 1 : 2;
  bool ok = true;
  const bool died = mc::dies([&] {
    if (form == 0)
      ok = grouped.with(other).size() == static_cast<std::size_t>(n_groups);
    else if (form == 1)
      ok = grouped.with(by_key).size() == static_cast<std::size_t>(n_groups);
    else
      ok = grouped.with(Eigen::VectorXd(Eigen::VectorXd::Ones(m))).size() == static_cast<std::size_t>(n_groups);
  });
  c.check(ok && died == (form == 1 ? n_groups != m : n != m), "with-other-sizes", at);
}
