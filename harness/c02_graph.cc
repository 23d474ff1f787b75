// C02: spanning trees and forests against brute force over edge subsets.
#include <albatross/Graph>
#include "mc.h"

using namespace albatross;

namespace {

template <typename V> using E = Edge<V>;

struct Union {
  std::vector<int> p;
  explicit Union(int n) : p(static_cast<std::size_t>(n)) {
    for (int i = 0; i < n; ++i)
      p[static_cast<std::size_t>(i)] = i;
  }
  int root(int x) {
    while (p[static_cast<std::size_t>(x)] != x)
      x = p[static_cast<std::size_t>(x)];
    return x;
  }
  bool join(int a, int b) {
    a = root(a);
    b = root(b);
    if (a == b)
      return false;
    p[static_cast<std::size_t>(a)] = b;
    return true;
  }
};

struct Plain {
  int a, b;
  double w;
  std::size_t id;
};

std::string show(const std::vector<Plain> &g) {
  std::ostringstream os;
  for (const auto &e : g)
    os << e.a << "-" << e.b << ":" << e.w << "#" << e.id << " ";
  return os.str();
}

// Least and greatest total weight over all spanning forests (by brute force).
void brute(const std::vector<Plain> &g, int n, double *lo, double *hi, int *parts) {
  Union all(n);
  int rank = 0;
  for (const auto &e : g)
    rank += all.join(e.a, e.b);
  *lo = 1e300;
  *hi = -1e300;
  *parts = n - rank;
  for (unsigned mask = 0; mask < (1u << g.size()); ++mask) {
    if (__builtin_popcount(mask) != rank)
      continue;
    Union u(n);
    bool tree = true;
    double w = 0;
    for (std::size_t i = 0; i < g.size() && tree; ++i)
      if (mask & (1u << i)) {
        tree = u.join(g[i].a, g[i].b);
        w += g[i].w;
      }
    if (tree) {
      *lo = std::min(*lo, w);
      *hi = std::max(*hi, w);
    }
  }
}

std::string name_of(int v, const std::string &) { return std::string(1, static_cast<char>('p' + (v * 3) % 5)) + std::to_string(v); }
int name_of(int v, int) { return v * 7 - 3; }

template <typename V>
void verify(mc::Ctx &c, const std::vector<Plain> &g, int n, const Graph<V> &out,
            double best, bool spanning_all, const char *what) {
  std::map<V, int> back;
  for (int i = 0; i < n; ++i)
    back[name_of(i, V())] = i;
  std::vector<bool> used(g.size(), false);
  Union all(n), u(n);
  for (const auto &e : g)
    all.join(e.a, e.b);
  double w = 0;
  std::set<V> touched;
  std::ostringstream os;
  for (const auto &e : out.edges)
    os << e.a << "-" << e.b << ":" << e.cost << "#" << e.id << " ";
  const std::string ctx = std::string(what) + " gave " + os.str();
  for (const auto &e : out.edges) {
    bool found = false;
    for (std::size_t i = 0; i < g.size() && !found; ++i) {
      if (used[i] || g[i].id != e.id || g[i].w != e.cost)
        continue;
      const V a = name_of(g[i].a, V()), b = name_of(g[i].b, V());
      if ((a == e.a && b == e.b) || (a == e.b && b == e.a)) {
        found = true;
        used[i] = true;
      }
    }
    c.check(found, "foreign-edge", ctx + " which has an edge that is not the input's");
    if (!back.count(e.a) || !back.count(e.b))
      continue;
    touched.insert(e.a);
    touched.insert(e.b);
    c.check(u.join(back[e.a], back[e.b]), "cycle", ctx + " which has a cycle");
    w += e.cost;
  }
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j)
      c.check((all.root(i) == all.root(j)) == (u.root(i) == u.root(j)), "connectivity",
              ctx + " which does not connect what the input connects");
  for (const auto &v : touched)
    c.check(out.vertices.count(v) == 1, "vertices", ctx + " misses the vertex of an edge");
  for (const auto &v : out.vertices)
    c.check(back.count(v) == 1, "vertices", ctx + " has a foreign vertex");
  if (spanning_all && n > 1)
    c.check(out.vertices.size() == static_cast<std::size_t>(n), "vertices",
            ctx + " does not list every vertex");
  c.check(std::fabs(w - best) < 1e-12, "weight", ctx + " of weight " + std::to_string(w) + " but the optimum is " + std::to_string(best));
}

// Larger graphs of regular shapes. The optimum comes from an independent
// Kruskal (kept apart from the library: plain arrays and union-find), itself
// checked against the brute force above on every small graph.
double greedy(std::vector<Plain> g, int n, bool most, int *parts) {
  std::stable_sort(g.begin(), g.end(), [&](const Plain &x, const Plain &y) {
    return most ? x.w > y.w : x.w < y.w;
  });
  Union u(n);
  double w = 0;
  *parts = n;
  for (const auto &e : g)
    if (u.join(e.a, e.b)) {
      w += e.w;
      --*parts;
    }
  return w;
}

template <typename V> void all_algorithms(mc::Ctx &c, std::vector<Plain> g, int n) {
  // Ids are the caller's: unique, all the same (the default), or repeated; and
  // an edge may be given from either end.
  const int numbering = c.choose(4);
  for (std::size_t i = 0; i < g.size(); ++i) {
    if (numbering == 1)
      g[i].id = 0;
    if (numbering == 2)
      g[i].id = g.size() - i;
    if (numbering == 3) {
      g[i].id = i % 2;
      if (i % 2 == 0)
        std::swap(g[i].a, g[i].b);
    }
  }
  c << show(g);
  c.state(show(g));
  double lo, hi;
  int parts;
  brute(g, n, &lo, &hi, &parts);
  {
    int p;
    c.check(std::fabs(greedy(g, n, false, &p) - lo) < 1e-12 && p == parts && std::fabs(greedy(g, n, true, &p) - hi) < 1e-12,
            "oracle", "the two oracles disagree");
  }
  std::vector<E<V>> edges;
  for (const auto &e : g)
    edges.emplace_back(name_of(e.a, V()), name_of(e.b, V()), e.w, e.id);
  const auto graph = create_graph(edges);
  const auto before = graph.edges;
  verify(c, g, n, minimum_spanning_forest(graph), lo, parts == 1, "minimum_spanning_forest");
  verify(c, g, n, maximum_spanning_forest(graph), hi, parts == 1, "maximum_spanning_forest");
  if (parts == 1) {
    verify(c, g, n, minimum_spanning_tree(graph), lo, true, "minimum_spanning_tree");
    verify(c, g, n, maximum_spanning_tree(graph), hi, true, "maximum_spanning_tree");
  }
  c.check(graph.edges == before, "argument-changed");
  c.step(4);
}

template <typename V> void simple_graph(mc::Ctx &c, int n, std::vector<double> weights) {
  std::vector<Plain> g;
  std::size_t id = 11;
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j) {
      const int k = c.choose(static_cast<int>(weights.size()) + 1);
      if (k > 0)
        g.push_back({i, j, weights[static_cast<std::size_t>(k - 1)], id++});
    }
  all_algorithms<V>(c, g, n);
}

} // namespace

MC_SCENARIO(simple_n3) { simple_graph<int>(c, 3, {-2.5, -1, 0, 1, 2, 3}); }
MC_SCENARIO(simple_n4) { simple_graph<int>(c, 4, {-1, 0, 1, 2}); }
MC_SCENARIO(simple_n4_names) { simple_graph<std::string>(c, 4, {1, 2}); }
MC_SCENARIO(simple_n5) { simple_graph<int>(c, 5, {1, 2}); }
MC_SCENARIO_THOROUGH(simple_n5_three) { simple_graph<int>(c, 5, {-1, 0, 2}); }
MC_SCENARIO_THOROUGH(simple_n4_six) { simple_graph<std::string>(c, 4, {-3, -1, 0, 1, 2, 2.5}); }

// Distinct weights in every order on every graph: the greedy order itself.
MC_SCENARIO(distinct_weights_n4) {
  std::vector<Plain> g;
  const auto order = c.permutation(6);
  std::size_t k = 0;
  const bool drop_some = c.flip();
  for (int i = 0; i < 4; ++i)
    for (int j = i + 1; j < 4; ++j, ++k)
      if (!(drop_some && order[k] == 5))
        g.push_back({i, j, static_cast<double>(order[k]) - 2.0, k});
  all_algorithms<int>(c, g, 4);
}

// Multigraphs with parallel edges, self loops and both orientations, every
// order of the edges.
static void multigraph(mc::Ctx &c, int n, int max_edges) {
  const int m = c.range(0, max_edges);
  std::vector<Plain> g;
  for (int k = 0; k < m; ++k) {
    const int a = c.choose(n), b = c.choose(n);
    g.push_back({a, b, static_cast<double>(c.choose(3)), static_cast<std::size_t>(k)});
  }
  // The vertices are those the edges mention.
  std::set<int> vs;
  for (const auto &e : g) {
    vs.insert(e.a);
    vs.insert(e.b);
  }
  std::map<int, int> renum;
  for (int v : vs) {
    const int i = static_cast<int>(renum.size());
    renum[v] = i;
  }
  c.assume(static_cast<int>(vs.size()) == (vs.empty() ? 0 : *vs.rbegin() + 1));
  if (g.empty()) {
    Graph<int> none;
    c.check(minimum_spanning_forest(none).edges.empty() && maximum_spanning_forest(none).edges.empty() &&
                minimum_spanning_tree(none).edges.empty() && maximum_spanning_tree(none).edges.empty(),
            "empty-graph");
    return;
  }
  all_algorithms<int>(c, g, static_cast<int>(vs.size()));
}
MC_SCENARIO(multigraph3) { multigraph(c, 3, 3); }
MC_SCENARIO_THOROUGH(multigraph3_deep) { multigraph(c, 3, 4); }

MC_SCENARIO(large) {
  const int shape = c.choose(7);
  const int n = c.pick({6, 7, 9, 12, 17, 33});
  const int weights = c.choose(7);
  const int order = c.choose(3);
  const int numbering = c.choose(3);
  std::vector<Plain> g;
  auto add = [&](int a, int b) {
    const int k = static_cast<int>(g.size());
    const double w[] = {1.0, static_cast<double>(k), static_cast<double>(-k), static_cast<double>(k % 3) - 1, static_cast<double>((a * 7 + b * 5) % 11), std::fabs(a - b) + 0.25, static_cast<double>((k * 13) % 17) - 8.5};
    g.push_back({a, b, w[weights], static_cast<std::size_t>(k)});
  };
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j) {
      const bool in[] = {
          j == i + 1 || (i == 0 && j == n - 1), // cycle
          true,                                 // complete
          i == 0 || j == i + 1,                 // wheel
          j == i + 1 || j == i + 3,             // ladder
          (i < n / 2) == (j < n / 2),           // two cliques
          (i + j) % 2 == 1,                     // bipartite
          j == 2 * i + 1 || j == 2 * i + 2 || j == i + 4};
      if (in[shape])
        add(i, j);
    }
  if (shape == 4)
    add(n / 2 - 1, n / 2); // joined by one bridge
  if (order == 1)
    std::reverse(g.begin(), g.end());
  if (order == 2)
    for (std::size_t i = 0; i < g.size(); ++i) {
      if (i % 2)
        std::swap(g[i].a, g[i].b);
      std::swap(g[i], g[i * 7 % g.size()]);
    }
  for (std::size_t i = 0; i < g.size(); ++i)
    g[i].id = numbering == 0 ? 0 : numbering == 1 ? i : g.size() - i;
  c << "shape " << shape << " n=" << n << " weights " << weights << " order " << order << " ids " << numbering;
  c.state(c.text);
  int parts, again;
  const double lo = greedy(g, n, false, &parts), hi = greedy(g, n, true, &again);
  std::vector<E<int>> edges;
  for (const auto &e : g)
    edges.emplace_back(name_of(e.a, 0), name_of(e.b, 0), e.w, e.id);
  const auto graph = create_graph(edges);
  verify(c, g, n, minimum_spanning_forest(graph), lo, parts == 1, "minimum_spanning_forest");
  verify(c, g, n, maximum_spanning_forest(graph), hi, parts == 1, "maximum_spanning_forest");
  if (parts == 1) {
    verify(c, g, n, minimum_spanning_tree(graph), lo, true, "minimum_spanning_tree");
    verify(c, g, n, maximum_spanning_tree(graph), hi, true, "maximum_spanning_tree");
  }
  c.step(4);
}

// The graph container itself.
MC_SCENARIO(container) {
  const int m = c.range(0, 3);
  Graph<int> built;
  std::vector<E<int>> edges;
  std::set<int> vs;
  std::map<int, std::multiset<std::string>> adj;
  std::ostringstream want;
  for (int k = 0; k < m; ++k) {
    const int a = c.choose(3), b = c.choose(3);
    edges.emplace_back(a, b, k + 0.5, static_cast<std::size_t>(k));
    add_edge(edges.back(), &built);
    vs.insert(a);
    vs.insert(b);
    auto s = [&](int x, int y) { return std::to_string(x) + ">" + std::to_string(y) + "#" + std::to_string(k); };
    adj[a].insert(s(a, b));
    adj[b].insert(s(b, a));
    want << a << " <--> " << b << " [" << k + 0.5 << "]\n";
  }
  const auto g = create_graph(edges);
  c.check(g.edges == edges && built.edges == edges, "create_graph-edges");
  c.check(g.vertices == vs && built.vertices == vs && compute_vertices(edges) == vs, "create_graph-vertices");
  for (int v = 0; v < 3; ++v)
    c.check(contains_vertex(g, v) == (vs.count(v) == 1), "contains_vertex");
  std::map<int, std::multiset<std::string>> got;
  for (const auto &kv : adjacency_map(g))
    for (const auto &e : kv.second) {
      c.check(e.a == kv.first, "adjacency-orientation");
      got[kv.first].insert(std::to_string(e.a) + ">" + std::to_string(e.b) + "#" + std::to_string(e.id));
    }
  c.check(got == adj, "adjacency_map");
  std::ostringstream os;
  os << g;
  c.check(os.str() == want.str(), "graph-printing", "printing gave '" + os.str() + "'");
  c.state(want.str());
}
