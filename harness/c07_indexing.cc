// C07: selecting, complementing, filtering, unique, set helpers, concatenating.
#include <albatross/Common>
#include <albatross/Dataset>
#include <albatross/Indexing>
#include "mc.h"

using namespace albatross;
using Ix = std::vector<std::size_t>;

namespace {

template <typename T> std::string show(const std::vector<T> &v) {
  std::ostringstream os;
  for (const auto &x : v)
    os << x << " ";
  return os.str();
}
template <typename T> std::string show(const std::set<T> &v) {
  return show(std::vector<T>(v.begin(), v.end()));
}

// Every index sequence of length <= len into a container of n elements.
Ix index_sequence(mc::Ctx &c, int n, int len) {
  const int k = n == 0 ? 0 : c.range(0, len);
  Ix out;
  for (int i = 0; i < k; ++i)
    out.push_back(static_cast<std::size_t>(c.choose(n)));
  return out;
}
bool distinct(const Ix &ix) { return std::set<std::size_t>(ix.begin(), ix.end()).size() == ix.size(); }

double mean_of(Eigen::Index i) { return 10. + static_cast<double>(i) * 1.25; }
double var_of(Eigen::Index i) { return 1. + static_cast<double>(i) * 0.5; }

MarginalDistribution marginal_of(Eigen::Index n) {
  Eigen::VectorXd m(n), v(n);
  for (Eigen::Index i = 0; i < n; ++i) {
    m[i] = mean_of(i);
    v[i] = var_of(i);
  }
  return MarginalDistribution(m, v);
}
JointDistribution joint_of(Eigen::Index n) {
  Eigen::VectorXd m(n);
  Eigen::MatrixXd v(n, n);
  for (Eigen::Index i = 0; i < n; ++i) {
    m[i] = mean_of(i);
    for (Eigen::Index j = 0; j < n; ++j)
      v(i, j) = 100. * static_cast<double>(i + 1) + static_cast<double>(j);  // not even symmetric: every entry tells where it came from
  }
  return JointDistribution(m, v);
}
Eigen::MatrixXd matrix_of(Eigen::Index r, Eigen::Index k) {
  Eigen::MatrixXd v(r, k);
  for (Eigen::Index i = 0; i < r; ++i)
    for (Eigen::Index j = 0; j < k; ++j)
      v(i, j) = 100. * static_cast<double>(i + 1) + static_cast<double>(j);
  return v;
}

template <typename T> std::vector<T> typed(const Ix &ix) {
  std::vector<T> out;
  for (auto i : ix)
    out.push_back(static_cast<T>(i));
  return out;
}

// One selection, for one index type, against element-by-element copying.
template <typename T> void selection(mc::Ctx &c, int n, const Ix &ix) {
  const auto sel = typed<T>(ix);
  const std::string at = "n=" + std::to_string(n) + " indices " + show(ix);
  const auto N = static_cast<Eigen::Index>(n), K = static_cast<Eigen::Index>(ix.size());
  std::vector<std::string> words;
  std::vector<int> numbers;
  for (int i = 0; i < n; ++i) {
    words.push_back("w" + std::to_string(i));
    numbers.push_back(7 * i);
  }
  const auto w = subset(words, sel);
  const auto marg = marginal_of(N);
  const auto joint = joint_of(N);
  const Eigen::VectorXd v = subset(marg.mean, sel);
  const Eigen::MatrixXd mat = matrix_of(N, 3), wide = matrix_of(2, N), sq = matrix_of(N, N);
  const Eigen::MatrixXd rows = subset_rows(mat, sel), cols = subset_cols(wide, sel), sym = symmetric_subset(sq, sel);
  DiagonalMatrixXd diag(N);
  diag.diagonal() = marg.covariance.diagonal();
  const auto d = symmetric_subset(diag, sel);
  const auto m = subset(marg, sel);
  const auto j = subset(joint, sel);
  const auto m2 = marg.subset(sel);
  const RegressionDataset<std::string> data(words, marg);
  const auto ds = subset(data, sel);
  const auto ds2 = data.subset(sel);

  c.check(w.size() == ix.size() && v.size() == K && rows.rows() == K && rows.cols() == 3 && cols.cols() == K && cols.rows() == 2 &&
              sym.rows() == K && sym.cols() == K && d.diagonal().size() == K && m.size() == ix.size() && j.size() == ix.size() &&
              ds.size() == ix.size() && ds.targets.size() == ix.size(),
          "subset-shape", at);
  c.check(subset(numbers, sel).size() == ix.size(), "subset-shape", at);
  bool ok = true, aligned = true;
  for (std::size_t i = 0; i < ix.size(); ++i) {
    const auto e = static_cast<Eigen::Index>(i), s = static_cast<Eigen::Index>(ix[i]);
    ok &= w[i] == words[ix[i]] && v[e] == mean_of(s) && d.diagonal()[e] == var_of(s) && rows.row(e) == mat.row(s) && cols.col(e) == wide.col(s);
    ok &= subset(numbers, sel)[i] == 7 * static_cast<int>(ix[i]);
    for (std::size_t k = 0; k < ix.size(); ++k) {
      const auto f = static_cast<Eigen::Index>(k), t = static_cast<Eigen::Index>(ix[k]);
      ok &= sym(e, f) == sq(s, t);
      aligned &= j.covariance(e, f) == joint.covariance(s, t);
    }
    aligned &= m.mean[e] == mean_of(s) && m.covariance.diagonal()[e] == var_of(s) && m2.mean[e] == mean_of(s) &&
               j.mean[e] == mean_of(s) && ds.features[i] == words[ix[i]] && ds.targets.mean[e] == mean_of(s) &&
               ds.targets.covariance.diagonal()[e] == var_of(s) && ds2.features[i] == words[ix[i]] && ds2.targets.mean[e] == mean_of(s) &&
               ds2.targets.covariance.diagonal()[e] == var_of(s) && m.get_diagonal(e) == var_of(s) && j[i].mean[0] == mean_of(s) &&
               j[i].covariance.diagonal()[0] == joint.covariance(s, s);
  }
  c.check(ok, "subset-elements", at);
  c.check(aligned, "subset-alignment", at);
  c.step(12);
}

} // namespace

MC_SCENARIO(selecting) {
  const int n = c.range(0, mc::tiered(4, 5));
  const auto ix = index_sequence(c, n, mc::tiered(4, 5));
  c.state("sel" + std::to_string(n) + ":" + show(ix));
  selection<std::size_t>(c, n, ix);
  selection<int>(c, n, ix);
  selection<Eigen::Index>(c, n, ix);
}

// Larger containers: regular index sequences of every kind.
namespace {
Ix regular(int shape, int n) {
  Ix ix;
  const auto N = static_cast<std::size_t>(n);
  for (std::size_t i = 0; i < N; ++i) {
    switch (shape) {
    case 0: ix.push_back(i); break;
    case 1: ix.push_back(N - 1 - i); break;
    case 2: if (i % 2) ix.push_back(i); break;
    case 3: if (i % 3 != 1) ix.push_back(N - 1 - i); break;
    case 4: ix.push_back(i / 2); break;           // repeats
    case 5: ix.push_back((i * 7 + 3) % N); break; // scattered
    case 6: if (i > N / 4 && i < N / 2) ix.push_back(i); break;
    case 7: ix.push_back((i + N / 2) % N); break; // rotated
    case 8: if (i == 0 || i + 1 == N) ix.push_back(i); break;
    case 9: ix.push_back(N / 3); break;           // all the same
    case 10: ix.push_back(i); ix.push_back(N - 1 - i); break; // longer than the source
    default: break;
    }
  }
  return ix;
}
} // namespace

MC_SCENARIO(selecting_large) {
  const int n = c.pick({6, 8, 9, 16, 17, 32, 33, 65});
  const auto ix = regular(c.choose(12), n);
  c.state("large" + std::to_string(n) + ":" + show(ix));
  selection<std::size_t>(c, n, ix);
  selection<int>(c, n, ix);
  selection<Eigen::Index>(c, n, ix);
  const auto jx = regular(c.choose(12), 9);
  const auto m = matrix_of(n, 9);
  const Eigen::MatrixXd got = subset(m, ix, jx);
  bool ok = got.rows() == static_cast<Eigen::Index>(ix.size()) && got.cols() == static_cast<Eigen::Index>(jx.size());
  for (std::size_t i = 0; ok && i < ix.size(); ++i)
    for (std::size_t j = 0; j < jx.size(); ++j)
      ok &= got(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) == m(static_cast<Eigen::Index>(ix[i]), static_cast<Eigen::Index>(jx[j]));
  c.check(ok, "subset-rows-columns", show(ix) + "/ " + show(jx));
}

// Complement, filtering, unique values of larger containers.
MC_SCENARIO(sets_large) {
  const int n = c.pick({7, 9, 16, 17, 33, 64, 129});
  const auto ix = regular(c.choose(12), n);
  const auto jx = regular(c.choose(12), n);
  c.state("sets" + std::to_string(n) + show(ix) + "/" + show(jx));
  const std::string at = "n=" + std::to_string(n) + " " + show(ix);
  const std::set<std::size_t> a(ix.begin(), ix.end()), b(jx.begin(), jx.end());
  Ix rest;
  for (std::size_t i = 0; i < static_cast<std::size_t>(n); ++i)
    if (!a.count(i))
      rest.push_back(i);
  c.check(indices_complement(ix, static_cast<std::size_t>(n)) == rest, "complement", at);
  std::set<std::size_t> diff;
  for (auto x : a)
    if (!b.count(x))
      diff.insert(x);
  c.check(set_difference(a, b) == diff && vector_set_difference(ix, jx) == diff, "set-difference", at);
  c.check(unique_values(ix) == a, "unique-values", at);
  // keep what the second sequence holds
  auto keep = [&](std::size_t v) { return b.count(v) == 1; };
  Ix want;
  std::vector<Eigen::Index> where;
  for (std::size_t i = 0; i < ix.size(); ++i)
    if (keep(ix[i])) {
      want.push_back(ix[i]);
      where.push_back(static_cast<Eigen::Index>(i));
    }
  c.check(filter(ix, keep) == want, "filter-vector", at);
  const RegressionDataset<std::size_t> data(ix, marginal_of(static_cast<Eigen::Index>(ix.size())));
  const auto got = filter(data, keep);
  bool ok = got.features == want && got.targets.size() == want.size();
  for (std::size_t i = 0; ok && i < where.size(); ++i)
    ok &= got.targets.mean[static_cast<Eigen::Index>(i)] == mean_of(where[i]) && got.targets.covariance.diagonal()[static_cast<Eigen::Index>(i)] == var_of(where[i]);
  c.check(ok, "filter-dataset", at);
  // writing a selection back
  if (distinct(ix)) {
    const auto before = marginal_of(n);
    auto to = before;
    const auto K = static_cast<Eigen::Index>(ix.size());
    Eigen::VectorXd nm(K), nv(K), wm = before.mean, wv = before.covariance.diagonal();
    for (Eigen::Index i = 0; i < K; ++i) {
      nm[i] = -1. - static_cast<double>(i);
      nv[i] = 500. + static_cast<double>(i);
      wm[static_cast<Eigen::Index>(ix[static_cast<std::size_t>(i)])] = nm[i];
      wv[static_cast<Eigen::Index>(ix[static_cast<std::size_t>(i)])] = nv[i];
    }
    to.set_subset(MarginalDistribution(nm, nv), ix);
    c.check(to.mean == wm && to.covariance.diagonal() == wv, "set-subset-distribution", at);
  }
  // many parts
  std::vector<std::vector<std::size_t>> parts;
  std::vector<RegressionDataset<std::size_t>> sets;
  Ix joined_up;
  std::vector<double> means;
  for (std::size_t k = 0; k < 9; ++k) {
    Ix part;
    for (std::size_t i = 0; i < ix.size(); ++i)
      if ((ix[i] + i) % 9 == k && k % 4 != 1)
        part.push_back(ix[i]);
    auto m = marginal_of(static_cast<Eigen::Index>(part.size()));
    m.mean.array() += 1000. * static_cast<double>(k);
    for (std::size_t i = 0; i < part.size(); ++i)
      means.push_back(m.mean[static_cast<Eigen::Index>(i)]);
    parts.push_back(part);
    sets.emplace_back(part, m);
    joined_up.insert(joined_up.end(), part.begin(), part.end());
  }
  const auto d = concatenate_datasets(sets);
  ok = concatenate(parts) == joined_up && d.features == joined_up && d.targets.size() == means.size();
  for (std::size_t i = 0; ok && i < means.size(); ++i)
    ok &= d.targets.mean[static_cast<Eigen::Index>(i)] == means[i];
  c.check(ok, "concatenate-many", at);
  c.step(7);
}

MC_SCENARIO(selecting_rows_and_columns) {
  const int r = c.range(0, 3), k = c.range(0, 3);
  const auto ri = index_sequence(c, r, 3), ci = index_sequence(c, k, mc::tiered(2, 3));
  const auto m = matrix_of(r, k);
  const Eigen::MatrixXd got = subset(m, ri, ci);
  bool ok = got.rows() == static_cast<Eigen::Index>(ri.size()) && got.cols() == static_cast<Eigen::Index>(ci.size());
  for (std::size_t i = 0; ok && i < ri.size(); ++i)
    for (std::size_t j = 0; j < ci.size(); ++j)
      ok &= got(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) == m(static_cast<Eigen::Index>(ri[i]), static_cast<Eigen::Index>(ci[j]));
  c.state("rc" + show(ri) + "/" + show(ci) + std::to_string(r) + std::to_string(k));
  c.check(ok, "subset-rows-columns", show(ri) + "/ " + show(ci));
}

// Writing a selection: only those elements change, and they read back.
MC_SCENARIO(writing) {
  const int n = c.range(0, mc::tiered(4, 5));
  const auto ix = index_sequence(c, n, n);
  c.assume(distinct(ix));
  const auto N = static_cast<Eigen::Index>(n), K = static_cast<Eigen::Index>(ix.size());
  const auto before = marginal_of(N);
  Eigen::VectorXd nm(K), nv(K);
  for (Eigen::Index i = 0; i < K; ++i) {
    nm[i] = -1. - static_cast<double>(i);
    nv[i] = 50. + static_cast<double>(i);
  }
  const MarginalDistribution from(nm, nv);
  Eigen::VectorXd vec = before.mean;
  set_subset(nm, ix, &vec);
  DiagonalMatrixXd diag(N), fd(K);
  diag.diagonal() = before.covariance.diagonal();
  fd.diagonal() = nv;
  set_subset(fd, ix, &diag);
  MarginalDistribution marg = before, marg2 = before;
  marg.set_subset(from, ix);
  set_subset(from, ix, &marg2);
  Eigen::VectorXd want_m = before.mean, want_v = before.covariance.diagonal();
  for (std::size_t i = 0; i < ix.size(); ++i) {
    want_m[static_cast<Eigen::Index>(ix[i])] = nm[static_cast<Eigen::Index>(i)];
    want_v[static_cast<Eigen::Index>(ix[i])] = nv[static_cast<Eigen::Index>(i)];
  }
  const std::string at = "n=" + std::to_string(n) + " indices " + show(ix);
  c.state("set" + std::to_string(n) + show(ix));
  c.step(4);
  c.check(vec == want_m, "set-subset-vector", at);
  c.check(diag.diagonal() == want_v, "set-subset-diagonal", at);
  c.check(marg.mean == want_m && marg.covariance.diagonal() == want_v, "set-subset-distribution", at);
  c.check(marg2.mean == want_m && marg2.covariance.diagonal() == want_v, "set-subset-free", at);
  c.check(subset(marg, ix) == from, "set-then-select", at);
}

// Out of range or mismatched: refused.
MC_SCENARIO(refusals) {
  const int n = c.range(0, 2);
  const int bad = c.pick<int>({n, n + 1, n * n, -1});
  c.assume(bad < 0 || bad >= n);
  const int what = c.choose(12);
  const auto N = static_cast<Eigen::Index>(n);
  c.state("refuse" + std::to_string(n) + "," + std::to_string(bad) + "," + std::to_string(what));
  const std::vector<int> ix{bad};
  const bool died = mc::dies([&] {
    switch (what) {
    case 0:
      subset(std::vector<double>(static_cast<std::size_t>(n)), ix);
      break;
    case 1:
      subset(Eigen::VectorXd(Eigen::VectorXd::Zero(N)), ix);
      break;
    case 2:
      subset_rows(Eigen::MatrixXd::Zero(N, 2), ix);
      break;
    case 3:
      subset_cols(Eigen::MatrixXd::Zero(2, N), ix);
      break;
    case 4:
      symmetric_subset(Eigen::MatrixXd(Eigen::MatrixXd::Zero(N, N)), ix);
      break;
    case 5: {
      auto m = marginal_of(N);
      m.set_subset(marginal_of(1), ix);
      break;
    }
    case 6: {
      DiagonalMatrixXd to(N), from(1);
      to.diagonal().setZero();
      from.diagonal().setZero();
      set_subset(from, ix, &to);
      break;
    }
    case 7: // columns, with rows that are there
      subset(Eigen::MatrixXd(Eigen::MatrixXd::Zero(3, N)), std::vector<int>{0}, ix);
      break;
    case 8:
      subset(Eigen::MatrixXd(Eigen::MatrixXd::Zero(N, 3)), ix, std::vector<int>{0});
      break;
    case 9: {
      DiagonalMatrixXd diag(N);
      diag.diagonal().setZero();
      symmetric_subset(diag, ix);
      break;
    }
    case 10: {
      Eigen::VectorXd to = Eigen::VectorXd::Zero(N);
      set_subset(Eigen::VectorXd(Eigen::VectorXd::Zero(1)), ix, &to);
      break;
    }
    case 11:
      subset(marginal_of(N), ix);
      break;
    }
  });
  c.check(died, "out-of-range-accepted", "n=" + std::to_string(n) + " index " + std::to_string(bad) + " form " + std::to_string(what));
}

// The complement, differences of sets, on every pair of sets.
MC_SCENARIO(complements) {
  const int n = c.range(0, mc::tiered(6, 8));
  const auto part = c.subset(static_cast<std::size_t>(n));
  Ix given = part;
  if (c.flip()) { // any order, with repeats and with values outside
    std::reverse(given.begin(), given.end());
    given.insert(given.end(), part.begin(), part.end());
    given.push_back(static_cast<std::size_t>(n));
    given.push_back(static_cast<std::size_t>(n) + 3);
  }
  Ix want;
  for (std::size_t i = 0; i < static_cast<std::size_t>(n); ++i)
    if (std::find(part.begin(), part.end(), i) == part.end())
      want.push_back(i);
  c.state("co" + std::to_string(n) + show(given));
  c.check(indices_complement(given, static_cast<std::size_t>(n)) == want, "complement", show(given));
  if (n <= 5) {
    const auto other = c.subset(static_cast<std::size_t>(n));
    std::set<std::size_t> a(part.begin(), part.end()), b(other.begin(), other.end()), diff;
    for (auto x : a)
      if (!b.count(x))
        diff.insert(x);
    Ix shuffled = other;
    std::reverse(shuffled.begin(), shuffled.end());
    c.check(set_difference(a, b) == diff, "set-difference", show(part) + "minus " + show(other));
    c.check(vector_set_difference(given, shuffled) ==
                [&] {
                  std::set<std::size_t> w;
                  for (auto x : given)
                    if (!b.count(x))
                      w.insert(x);
                  return w;
                }(),
            "vector-set-difference", show(given) + "minus " + show(other));
  }
}

// Filtering by every predicate over the values.
MC_SCENARIO(filtering) {
  const int n = c.range(0, mc::tiered(5, 6));
  std::vector<int> xs;
  for (int i = 0; i < n; ++i)
    xs.push_back(c.choose(3));
  const auto keep_set = c.subset(3);
  std::size_t calls = 0;
  auto keep = [&](int v) {
    ++calls;
    return std::find(keep_set.begin(), keep_set.end(), static_cast<std::size_t>(v)) != keep_set.end();
  };
  std::vector<int> want;
  Ix where;
  for (std::size_t i = 0; i < xs.size(); ++i)
    if (keep(xs[i])) {
      want.push_back(xs[i]);
      where.push_back(i);
    }
  const std::string at = show(xs) + "keep " + show(keep_set);
  c.state("filter" + at);
  calls = 0;
  c.check(filter(xs, keep) == want, "filter-vector", at);
  c.check(calls == xs.size(), "filter-calls", at);
  // a predicate that is const, and one by reference
  const auto by_ref = [&](const int &v) { return keep(v); };
  c.check(filter(xs, by_ref) == want, "filter-vector", at);
  const std::set<int> s(xs.begin(), xs.end());
  c.check(filter(s, keep) == std::set<int>(want.begin(), want.end()), "filter-set", at);
  const RegressionDataset<int> data(xs, marginal_of(n));
  const auto got = filter(data, keep);
  bool ok = got.features == want && got.targets.size() == want.size();
  for (std::size_t i = 0; ok && i < where.size(); ++i)
    ok &= got.targets.mean[static_cast<Eigen::Index>(i)] == mean_of(static_cast<Eigen::Index>(where[i])) &&
          got.targets.covariance.diagonal()[static_cast<Eigen::Index>(i)] == var_of(static_cast<Eigen::Index>(where[i]));
  c.check(ok, "filter-dataset", at);
  // maps: by value and by (key, value)
  std::map<int, int> m;
  for (std::size_t i = 0; i < xs.size(); ++i)
    m[static_cast<int>(10 * i)] = xs[i];
  std::map<int, int> want_m, want_k;
  for (const auto &p : m) {
    if (keep(p.second))
      want_m.insert(p);
    if (keep((p.first / 10 + p.second) % 3))
      want_k.insert(p);
  }
  c.check(filter(m, keep).get_map() == want_m, "filter-map", at);
  auto kv = [&](int k, int v) { return keep((k / 10 + v) % 3); };
  c.check(filter(m, kv).get_map() == want_k, "filter-map-key", at);
  c.check(filter(Grouped<int, int>(m), kv).get_map() == want_k, "filter-grouped", at);
  c.check(filter(Grouped<int, int>(m), keep).get_map() == want_m, "filter-grouped", at);
  c.step(9);
}

MC_SCENARIO(uniques) {
  const int n = c.range(0, mc::tiered(5, 6));
  std::vector<int> xs;
  for (int i = 0; i < n; ++i)
    xs.push_back(c.choose(3));
  const int how = c.choose(3);
  auto f = [&](int v) -> std::string { return how == 0 ? "same" : how == 1 ? std::to_string(v) : std::to_string(v % 2); };
  std::set<int> want;
  std::set<std::string> want_f;
  for (int x : xs) {
    want.insert(x);
    want_f.insert(f(x));
  }
  const std::string at = show(xs) + " f" + std::to_string(how);
  c.state("unique" + at);
  c.check(unique_values(xs) == want, "unique-values", at);
  c.check(unique_values(xs, f) == want_f, "unique-values-of", at);
  c.check(unique_values(want, f) == want_f, "unique-values-of-set", at);
  if (want.size() == 1) {
    c.check(unique_value(xs) == *want.begin() && unique_value(want) == *want.begin(), "unique-value", at);
  } else if (how == 0 && n <= 3) {
    c.check(mc::dies([&] { unique_value(xs); }), "unique-value-ambiguous", at);
  }
  if (want_f.size() == 1)
    c.check(unique_value(xs, f) == *want_f.begin(), "unique-value-of", at);
  else if (how == 1 && n <= 3)
    c.check(mc::dies([&] { unique_value(xs, f); }), "unique-value-ambiguous", at);
  c.step(5);
}

namespace {
struct P {
  int v;
  bool operator==(const P &o) const { return v == o.v; }
};
struct Q {
  int v;
  bool operator==(const Q &o) const { return v == o.v; }
};
struct R {
  int v;
  bool operator==(const R &o) const { return v == o.v; }
};
std::string tell(const P &x) { return "P" + std::to_string(x.v); }
std::string tell(const Q &x) { return "Q" + std::to_string(x.v); }
std::string tell(const R &x) { return "R" + std::to_string(x.v); }
template <typename... Ts> std::string tell(const variant<Ts...> &x) {
  return x.match([](const auto &y) { return tell(y); });
}
template <typename T> std::vector<std::string> tell_all(const std::vector<T> &xs) {
  std::vector<std::string> out;
  for (const auto &x : xs)
    out.push_back(tell(x));
  return out;
}
template <typename T> std::vector<T> plain(int n, int from) {
  std::vector<T> out;
  for (int i = 0; i < n; ++i)
    out.push_back(T{from + i});
  return out;
}
template <typename X, typename Y>
std::vector<variant<X, Y>> mixed(mc::Ctx &c, int n, int from) {
  std::vector<variant<X, Y>> out;
  for (int i = 0; i < n; ++i) {
    if (c.flip())
      out.push_back(X{from + i});
    else
      out.push_back(Y{from + i});
  }
  return out;
}
template <typename A, typename B> void joined(mc::Ctx &c, const A &a, const B &b, const char *what) {
  auto want = tell_all(a);
  for (const auto &s : tell_all(b))
    want.push_back(s);
  const auto got = tell_all(concatenate(a, b));
  c.check(got == want, "concatenate-order", std::string(what) + ": got " + show(got) + "expected " + show(want));
  c.step();
  // the same as datasets: targets stay with their features
  const auto na = static_cast<Eigen::Index>(a.size()), nb = static_cast<Eigen::Index>(b.size());
  const auto ta = marginal_of(na);
  Eigen::VectorXd mb(nb), vb(nb);
  for (Eigen::Index i = 0; i < nb; ++i) {
    mb[i] = -mean_of(i);
    vb[i] = 33 + var_of(i);
  }
  const auto da = create_dataset(a, ta);
  const auto db = create_dataset(b, MarginalDistribution(mb, vb));
  const auto both = concatenate_datasets(da, db);
  bool ok = tell_all(both.features) == want && both.targets.size() == want.size();
  for (Eigen::Index i = 0; ok && i < na + nb; ++i)
    ok &= both.targets.mean[i] == (i < na ? ta.mean[i] : mb[i - na]) &&
          both.targets.covariance.diagonal()[i] == (i < na ? var_of(i) : vb[i - na]);
  c.check(ok, "concatenate-datasets", what);
}
} // namespace

MC_SCENARIO(concatenating) {
  const int na = c.range(0, mc::tiered(3, 4)), nb = c.range(0, mc::tiered(3, 4));
  const int kind = c.choose(11);
  c.state("cat" + std::to_string(na) + "," + std::to_string(nb) + "," + std::to_string(kind));
  switch (kind) {
  case 0:
    return joined(c, plain<P>(na, 0), plain<P>(nb, 100), "P+P");
  case 1:
    return joined(c, plain<P>(na, 0), plain<Q>(nb, 100), "P+Q");
  case 2:
    return joined(c, plain<Q>(na, 0), plain<P>(nb, 100), "Q+P");
  case 3:
    return joined(c, plain<P>(na, 0), mixed<P, Q>(c, nb, 100), "P+PQ");
  case 4:
    return joined(c, plain<R>(na, 0), mixed<P, Q>(c, nb, 100), "R+PQ");
  case 5:
    return joined(c, mixed<P, Q>(c, na, 0), plain<Q>(nb, 100), "PQ+Q");
  case 6:
    return joined(c, mixed<P, Q>(c, na, 0), plain<R>(nb, 100), "PQ+R");
  case 7:
    return joined(c, mixed<P, Q>(c, na, 0), mixed<P, Q>(c, nb, 100), "PQ+PQ");
  case 8:
    return joined(c, plain<Q>(na, 0), mixed<P, Q>(c, nb, 100), "Q+PQ");
  case 9: { // vectors, marginals
    const auto a = marginal_of(na);
    Eigen::VectorXd mb(nb), vb(nb);
    for (int i = 0; i < nb; ++i) {
      mb[i] = -i;
      vb[i] = 70 + i;
    }
    const auto got = concatenate(a.mean, mb);
    const auto gm = concatenate_marginals(a, MarginalDistribution(mb, vb));
    bool ok = got.size() == na + nb && gm.size() == static_cast<std::size_t>(na + nb);
    for (int i = 0; ok && i < na + nb; ++i)
      ok &= got[i] == (i < na ? a.mean[i] : mb[i - na]) && gm.mean[i] == got[i] && gm.covariance.diagonal()[i] == (i < na ? var_of(i) : vb[i - na]);
    c.check(ok, "concatenate-vectors", std::to_string(na) + "," + std::to_string(nb));
    return;
  }
  case 10: { // any number of parts, including empty ones
    const int nc = c.range(0, 2), parts = c.range(0, 4);
    const std::vector<int> sizes{na, nb, nc, na};
    std::vector<std::vector<P>> all;
    std::vector<MarginalDistribution> margs;
    std::vector<RegressionDataset<P>> sets;
    std::vector<std::string> want;
    std::vector<double> want_m;
    for (int k = 0; k < parts; ++k) {
      const int s = sizes[static_cast<std::size_t>(k)];
      all.push_back(plain<P>(s, 100 * k));
      auto m = marginal_of(s);
      m.mean.array() += 1000. * k;
      margs.push_back(m);
      sets.emplace_back(all.back(), m);
      for (int i = 0; i < s; ++i) {
        want.push_back("P" + std::to_string(100 * k + i));
        want_m.push_back(mean_of(i) + 1000. * k);
      }
    }
    const auto f = concatenate(all);
    const auto m = concatenate_marginals(margs);
    const auto d = concatenate_datasets(sets);
    bool ok = tell_all(f) == want && tell_all(d.features) == want && m.size() == want.size() && d.targets == m;
    for (std::size_t i = 0; ok && i < want.size(); ++i)
      ok &= m.mean[static_cast<Eigen::Index>(i)] == want_m[i];
    c.check(ok, "concatenate-many", std::to_string(parts) + " parts");
    return;
  }
  }
}
