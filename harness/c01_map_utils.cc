// C01: map helpers against the elementary set algebra on keys.
#include <albatross/utils/MapUtils>
#include "mc.h"
#include <list>

using namespace albatross;

namespace {

using Assoc = std::vector<std::pair<int, std::string>>; // reference, in order

// A comparator whose direction is run-time state (default: ascending).
struct Stateful {
  int sign = 1;
  bool operator()(int a, int b) const { return sign * a < sign * b; }
};

// Keys which differ and are equivalent.
struct ByHalves {
  bool operator()(int a, int b) const { return a / 2 < b / 2; }
};

// Transparent comparator over two key types.
struct Wide {
  int k;
  operator int() const { return k; }
};
struct Hetero {
  using is_transparent = void;
  static int v(int x) { return x; }
  static int v(const Wide &x) { return x.k; }
  template <typename A, typename B>
  bool operator()(const A &a, const B &b) const {
    return v(a) < v(b);
  }
};

template <typename M> std::string show(const M &m) {
  std::ostringstream os;
  for (const auto &p : m)
    os << p.first << ":" << p.second << " ";
  return os.str();
}
template <typename V> std::string show_keys(const V &m) {
  std::ostringstream os;
  for (const auto &p : m)
    os << p << " ";
  return os.str();
}

// What the maps look like, per side: which keys are in, in comparator order.
template <typename Map>
Map build(mc::Ctx &c, int universe, const std::string &side,
          typename Map::key_compare cmp) {
  Map m(cmp);
  for (int k = 0; k < universe; ++k) {
    if (c.flip())
      m.emplace(typename Map::key_type{k}, side + std::to_string(k));
  }
  return m;
}

template <typename Map> Assoc items(const Map &m) {
  Assoc out;
  for (const auto &p : m)
    out.emplace_back(static_cast<int>(p.first), p.second);
  return out;
}

// (a key is where the comparator tells it apart from nothing)
template <typename Cmp> const std::string *find(const Assoc &a, int k, Cmp cmp) {
  for (const auto &p : a)
    if (!cmp(p.first, k) && !cmp(k, p.first))
      return &p.second;
  return nullptr;
}

template <typename Cmp>
Assoc sorted(Assoc a, Cmp cmp) {
  std::sort(a.begin(), a.end(), [&](const auto &x, const auto &y) {
    return cmp(x.first, y.first);
  });
  return a;
}

// Which of two equivalent keys a join keeps is not told.
template <typename Map> void expect_join(mc::Ctx &c, const Map &got, const Assoc &want, const char *key, typename Map::key_compare cmp) {
  const Assoc g = items(got);
  bool same = g.size() == want.size();
  for (std::size_t i = 0; same && i < g.size(); ++i)
    same = g[i].second == want[i].second && !cmp(g[i].first, want[i].first) && !cmp(want[i].first, g[i].first);
  c.check(same, key, std::string(key) + ": got " + show(got) + " want " + show(want));
}

template <typename Map>
void expect(mc::Ctx &c, const Map &got, const Assoc &want, const char *key) {
  c.check(items(got) == want, key,
          std::string(key) + ": got " + show(got) + " want " + show(want));
  // the result must keep working as a map ordered like its source
  for (const auto &p : want) {
    c.check(got.find(typename Map::key_type{p.first}) != got.end() &&
                got.count(typename Map::key_type{p.first}) == 1,
            "result-lookup", std::string(key) + " lookup in result");
  }
}

// Larger maps: every key of a regular selection of 0..n-1 (with a gap between
// neighbouring keys, so that keys can lie strictly between two others).
bool selects(int pattern, int k, int n) {
  switch (pattern) {
  case 0: return true;
  case 1: return k % 2 == 0;
  case 2: return k % 2 == 1;
  case 3: return k % 3 == 1;
  case 4: return k < n / 2;
  case 5: return k >= n / 2;
  case 6: return k >= n / 4 && k < 3 * n / 4;
  case 7: return k == 0 || k == n - 1;
  case 8: return k == n / 2;
  case 9: return (k * 7 + 3) % 5 < 2;
  case 10: return k != n - 1;
  case 11: return k != 0;
  default: return false;
  }
}
const int n_patterns = 13;
template <typename Map>
Map build_regular(mc::Ctx &c, int n, const std::string &side,
                  typename Map::key_compare cmp) {
  const int pattern = c.choose(n_patterns);
  Map m(cmp);
  for (int k = 0; k < n; ++k)
    if (selects(pattern, k, n))
      m.emplace(typename Map::key_type{k}, side + std::to_string(k % 10));
  return m;
}

template <typename MapA, typename MapB, typename Cmp>
void algebra_of(mc::Ctx &c, const MapA &a, const MapB &b, Cmp cmp) {
  const Assoc ia = items(a), ib = items(b);
  c << "a={" << show(ia) << "} b={" << show(ib) << "}";
  c.state(show(ia) + "|" + show(ib));
  Assoc only_a, only_b, both_l, both_r, both_m;
  for (const auto &p : ia) {
    if (const auto *v = find(ib, p.first, cmp)) {
      both_l.push_back(p);
      both_r.emplace_back(p.first, *v);
      both_m.emplace_back(p.first, p.second + "+" + *v + "@" + std::to_string(p.first));
    } else {
      only_a.push_back(p);
    }
  }
  for (const auto &p : ib)
    if (!find(ia, p.first, cmp))
      only_b.push_back(p);
  auto join = [&](const Assoc &x, const Assoc &y) {
    Assoc o = x;
    o.insert(o.end(), y.begin(), y.end());
    return sorted(o, cmp);
  };
  const Assoc sym = join(only_a, only_b);

  expect(c, map_difference(a, b), only_a, "map_difference");
  expect(c, map_symmetric_difference(a, b), sym, "map_symmetric_difference");
  expect(c, map_union(a, b), join(sym, both_l), "map_union default");
  expect(c, map_union(a, b, ReturnLeft{}), join(sym, both_l), "map_union left");
  expect(c, map_union(a, b, ReturnRight{}), join(sym, both_r), "map_union right");
  std::vector<int> calls;
  const auto m3 = [&](const auto &k, const std::string &x, const std::string &y) {
    calls.push_back(static_cast<int>(k));
    return x + "+" + y + "@" + std::to_string(static_cast<int>(k));
  };
  expect(c, map_union(a, b, m3), join(sym, both_m), "map_union merge3");
  std::vector<int> common;
  for (const auto &p : both_l)
    common.push_back(p.first);
  c.check(calls == common, "map_union-calls", "merge called " + show_keys(calls) +
                                                  " want " + show_keys(common));
  calls.clear();
  int n2 = 0;
  const auto m2 = [&](const std::string &x, const std::string &y) {
    ++n2;
    return x + "-" + y;
  };
  {
    Assoc w;
    for (std::size_t i = 0; i < both_l.size(); ++i)
      w.emplace_back(both_l[i].first, both_l[i].second + "-" + both_r[i].second);
    expect(c, map_union(a, b, m2), join(sym, w), "map_union merge2");
    c.check(n2 == static_cast<int>(w.size()), "map_union-calls2");
    n2 = 0;
    expect(c, map_intersect(a, b, m2), w, "map_intersect merge2");
    c.check(n2 == static_cast<int>(w.size()), "map_intersect-calls2");
  }
  expect(c, map_intersect(a, b, ReturnLeft{}), both_l, "map_intersect left");
  expect(c, map_intersect(a, b, ReturnRight{}), both_r, "map_intersect right");
  expect(c, map_intersect(a, b, m3), both_m, "map_intersect merge3");
  c.check(calls == common, "map_intersect-calls");
  {
    const auto pairs = map_intersect(a, b);
    Assoc w, g;
    for (std::size_t i = 0; i < both_l.size(); ++i)
      w.emplace_back(both_l[i].first, both_l[i].second + "," + both_r[i].second);
    for (const auto &p : pairs)
      g.emplace_back(static_cast<int>(p.first), p.second.first + "," + p.second.second);
    c.check(w == g, "map_intersect pairs", "map_intersect default: got " + show(g) + " want " + show(w));
  }
  {
    // A merge changing the value type.
    const auto sizes = map_intersect(a, b, [](const std::string &x, const std::string &y) {
      return static_cast<int>(x.size() * 10 + y.size());
    });
    std::vector<int> g;
    for (const auto &p : sizes) {
      g.push_back(static_cast<int>(p.first));
      c.check(p.second == 22, "map_intersect value type");
    }
    c.check(g == common, "map_intersect value type keys");
  }
  std::vector<int> dk, ik, wdk;
  for (const auto &k : map_difference_keys(a, b))
    dk.push_back(static_cast<int>(k));
  for (const auto &k : map_intersect_keys(a, b))
    ik.push_back(static_cast<int>(k));
  for (const auto &p : only_a)
    wdk.push_back(p.first);
  c.check(dk == wdk, "map_difference_keys", show_keys(dk));
  c.check(ik == common, "map_intersect_keys", show_keys(ik));
  // Subsetting by an ordered sequence (a set, and a map's keys).
  {
    std::set<typename MapB::key_type, typename MapB::key_compare> keys(cmp);
    std::vector<typename MapB::key_type> vec;
    std::list<typename MapB::key_type> lst;
    for (const auto &p : b) {
      keys.insert(p.first);
      vec.push_back(p.first);
      lst.push_back(p.first);
    }
    expect(c, map_subset(a, keys), both_l, "map_subset");
    expect(c, map_subset_sorted(a, vec), both_l, "map_subset_sorted vector");
    expect(c, map_subset_sorted(a, keys), both_l, "map_subset_sorted set");
    expect(c, map_subset_sorted(a, lst), both_l, "map_subset_sorted list");
  }
  c.check(items(a) == ia && items(b) == ib, "arguments-changed");
  c.step(17);
}

template <typename MapA, typename MapB, typename Cmp>
void algebra(mc::Ctx &c, int universe, Cmp cmp) {
  const MapA a = build<MapA>(c, universe, "a", cmp);
  const MapB b = build<MapB>(c, universe, "b", cmp);
  algebra_of(c, a, b, cmp);
}
template <typename MapA, typename MapB, typename Cmp>
void large_algebra(mc::Ctx &c, Cmp cmp) {
  const int n = c.pick({6, 9, 17, 33, 64, 130});
  const MapA a = build_regular<MapA>(c, n, "a", cmp);
  const MapB b = build_regular<MapB>(c, n, "b", cmp);
  algebra_of(c, a, b, cmp);
}

} // namespace

static int universe() { return mc::tiered(5, 7); }

MC_SCENARIO(ascending) {
  using M = std::map<int, std::string>;
  algebra<M, M>(c, universe(), std::less<int>());
}
MC_SCENARIO(descending) {
  using M = std::map<int, std::string, std::greater<int>>;
  algebra<M, M>(c, universe(), std::greater<int>());
}
MC_SCENARIO(stateful) {
  using M = std::map<int, std::string, Stateful>;
  const Stateful s{c.flip() ? -1 : 1};
  algebra<M, M>(c, universe() - 1, s);
}
MC_SCENARIO(heterogeneous_keys) {
  using A = std::map<int, std::string, Hetero>;
  using B = std::map<Wide, std::string, Hetero>;
  algebra<A, B>(c, universe() - 1, Hetero());
}
MC_SCENARIO(equivalent_keys) {
  using M = std::map<int, std::string, ByHalves>;
  algebra<M, M>(c, universe() + 1, ByHalves());
}

MC_SCENARIO(large_ascending) {
  using M = std::map<int, std::string>;
  large_algebra<M, M>(c, std::less<int>());
}
MC_SCENARIO(large_descending) {
  using M = std::map<int, std::string, std::greater<int>>;
  large_algebra<M, M>(c, std::greater<int>());
}
MC_SCENARIO(large_heterogeneous) {
  using A = std::map<int, std::string, Hetero>;
  using B = std::map<Wide, std::string, Hetero>;
  large_algebra<A, B>(c, Hetero());
}

// The values' own types differ between the maps.
MC_SCENARIO(mixed_values) {
  std::map<int, double> a;
  std::map<int, std::string> b;
  const int n = 4;
  for (int k = 0; k < n; ++k)
    if (c.flip())
      a[k] = k + 0.5;
  for (int k = 0; k < n; ++k)
    if (c.flip())
      b[k] = std::to_string(k);
  c.state(show(a) + "|" + show(b));
  const auto d = map_difference(a, b);
  const auto i = map_intersect(a, b);
  const auto l = map_intersect(b, a, ReturnRight{});
  for (int k = 0; k < n; ++k) {
    const bool in_a = a.count(k), in_b = b.count(k);
    c.check(d.count(k) == (in_a && !in_b), "mixed difference");
    c.check(i.count(k) == (in_a && in_b), "mixed intersect");
    c.check(l.count(k) == (in_a && in_b), "mixed intersect right");
    if (in_a && !in_b)
      c.check(d.at(k) == a.at(k), "mixed difference value");
    if (in_a && in_b) {
      c.check(i.at(k).first == a.at(k) && i.at(k).second == b.at(k), "mixed intersect value");
      c.check(l.at(k) == a.at(k), "mixed intersect right value");
    }
  }
}

template <typename Map> static void readers(mc::Ctx &c, typename Map::key_compare cmp) {
  const int n = c.pick({universe(), 20, 70});
  const Map a = n <= 7 ? build<Map>(c, n, "a", cmp) : build_regular<Map>(c, n, "a", cmp);
  c.state(show(a));
  const Assoc ia = items(a);
  std::vector<int> wk;
  std::vector<std::string> wv;
  for (const auto &p : ia) {
    wk.push_back(p.first);
    wv.push_back(p.second);
  }
  c.check(map_keys(a) == wk, "map_keys", show_keys(map_keys(a)));
  c.check(map_values(a) == wv, "map_values", show_keys(map_values(a)));
  for (int k = -1; k <= n; ++k) {
    const auto *v = find(ia, k, cmp);
    c.check(map_contains(a, k) == (v != nullptr), "map_contains");
    c.check(map_at_or(a, k) == (v ? *v : std::string()), "map_at_or default");
    c.check(map_at_or(a, k, std::string("z")) == (v ? *v : "z"), "map_at_or");
  }
  c.check(items(a) == ia, "readers-changed");
  c.step(2 + 3 * static_cast<std::size_t>(n + 2));
  // map_subset_sorted refuses an unsorted sequence, accepts repeated keys.
}

MC_SCENARIO(readers_less) { readers<std::map<int, std::string>>(c, {}); }
MC_SCENARIO(readers_greater) {
  readers<std::map<int, std::string, std::greater<int>>>(c, {});
}
MC_SCENARIO(readers_equivalent) { readers<std::map<int, std::string, ByHalves>>(c, {}); }
MC_SCENARIO(readers_stateful) {
  readers<std::map<int, std::string, Stateful>>(c, Stateful{c.flip() ? -1 : 1});
}

template <typename Map> static void joins(mc::Ctx &c, typename Map::key_compare cmp) {
  const int n = c.pick({universe() - 1, 20, 70});
  const Map a = n <= 7 ? build<Map>(c, n, "a", cmp) : build_regular<Map>(c, n, "a", cmp);
  const Map b = n <= 7 ? build<Map>(c, n, "b", cmp) : build_regular<Map>(c, n, "b", cmp);
  const Assoc ia = items(a), ib = items(b);
  c << show(a) << "| " << show(b);
  c.state(show(a) + "|" + show(b));
  Assoc want = ib;
  bool overlap = false;
  for (const auto &p : ia) {
    if (find(ib, p.first, cmp))
      overlap = true;
    else
      want.push_back(p);
  }
  want = sorted(want, cmp);
  expect_join(c, map_join(a, b), want, "map_join", cmp);
  if (!overlap)
    expect_join(c, map_join_strict(a, b), want, "map_join_strict", cmp);
  else
    c.check(mc::dies([&] { (void)map_join_strict(a, b); }), "map_join_strict refuses",
            "map_join_strict accepted maps which share a key");
  c.check(items(a) == ia && items(b) == ib, "joins-changed");
}

MC_SCENARIO(joins_less) { joins<std::map<int, std::string>>(c, {}); }
MC_SCENARIO(joins_greater) {
  joins<std::map<int, std::string, std::greater<int>>>(c, {});
}
MC_SCENARIO(joins_equivalent) { joins<std::map<int, std::string, ByHalves>>(c, {}); }
MC_SCENARIO(joins_stateful) {
  joins<std::map<int, std::string, Stateful>>(c, Stateful{-1});
}

// Every key sequence (any order, repeats) for the sorted subset: sorted
// sequences select, unsorted ones are refused.
MC_SCENARIO(subset_sorted_sequences) {
  const int n = 4;
  const auto a = build<std::map<int, std::string>>(c, n, "a", {});
  const int len = c.range(0, 3);
  std::vector<int> keys;
  for (int i = 0; i < len; ++i)
    keys.push_back(c.range(-1, n));
  c << show(a) << " by " << show_keys(keys);
  c.state(show(a) + "|" + show_keys(keys));
  if (std::is_sorted(keys.begin(), keys.end())) {
    Assoc want;
    for (const auto &p : items(a))
      if (std::count(keys.begin(), keys.end(), p.first))
        want.push_back(p);
    expect(c, map_subset_sorted(a, keys), want, "map_subset_sorted sequence");
  } else {
    // (forks once per execution, so only a slice of them in the quick tier)
    c.assume(mc::thorough() || a.size() == 2);
    c.check(mc::dies([&] { (void)map_subset_sorted(a, keys); }),
            "map_subset_sorted refuses", "unsorted keys were accepted");
  }
}

// The functions are constant: move-only free, and they copy (not alias).
MC_SCENARIO(results_do_not_alias) {
  std::map<int, std::string> a = build<std::map<int, std::string>>(c, 3, "a", {});
  const std::map<int, std::string> b = build<std::map<int, std::string>>(c, 3, "b", {});
  const auto u = map_union(a, b);
  const auto j = map_join(a, b);
  const auto shown = show(u) + show(j);
  for (auto &p : a)
    p.second = "changed";
  c.check(show(u) + show(j) == shown, "aliasing");
  c.state(shown);
}
