// C06: variant, vector and index-conversion helpers.
#include <albatross/Common>
#include <albatross/Dataset>
#include <albatross/Indexing>
#include <albatross/utils/VariantUtils>
#include "mc.h"

using namespace albatross;

namespace {

struct A {
  int v = 0;
  bool operator==(const A &o) const { return v == o.v; }
};
struct B {
  int v = 0;
  bool operator==(const B &o) const { return v == o.v; }
};
struct C {
  int v = 0;
  bool operator==(const C &o) const { return v == o.v; }
};
using Sub = variant<B, A>;      // another order of alternatives
using Full = variant<A, B, C, double>;

std::string show(const Full &f) {
  return f.match([](const A &x) { return "A" + std::to_string(x.v); },
                 [](const B &x) { return "B" + std::to_string(x.v); },
                 [](const C &x) { return "C" + std::to_string(x.v); },
                 [](const double &x) { return "d" + std::to_string(x); });
}
std::string show(const Sub &f) {
  return f.match([](const A &x) { return "A" + std::to_string(x.v); },
                 [](const B &x) { return "B" + std::to_string(x.v); });
}
template <typename V> std::string show_all(const V &xs) {
  std::string s;
  for (const auto &x : xs)
    s += show(x) + " ";
  return s;
}

Full full(mc::Ctx &c, int tag) {
  switch (c.choose(4)) {
  case 0:
    return A{tag};
  case 1:
    return B{tag};
  case 2:
    return C{tag};
  default:
    return tag + 0.5;
  }
}
Sub sub(mc::Ctx &c, int tag) {
  if (c.flip())
    return A{tag};
  return B{tag};
}

template <typename T> std::vector<T> pick_type(const std::vector<Full> &xs, std::vector<std::size_t> *idx = nullptr) {
  std::vector<T> out;
  for (std::size_t i = 0; i < xs.size(); ++i) {
    const Full &x = xs[i];
    if (x.template is<T>()) {
      out.push_back(x.template get<T>());
      if (idx)
        idx->push_back(i);
    }
  }
  return out;
}

template <typename T> void extraction(mc::Ctx &c, const std::vector<Full> &xs) {
  std::vector<std::size_t> idx;
  const auto want = pick_type<T>(xs, &idx);
  const auto got = extract_from_variants<T>(xs);
  c.check(got == want, "extract", "from " + show_all(xs));
  // and there and back again
  const auto again = to_variant_vector<Full>(got);
  c.check(again.size() == got.size(), "to_variant_vector-size");
  c.check(extract_from_variants<T>(again) == got, "extract-inverse");
  // datasets keep the pairing with targets
  Eigen::VectorXd mean(static_cast<Eigen::Index>(xs.size())), var(static_cast<Eigen::Index>(xs.size()));
  for (std::size_t i = 0; i < xs.size(); ++i) {
    mean[static_cast<Eigen::Index>(i)] = 10.0 + static_cast<double>(i);
    var[static_cast<Eigen::Index>(i)] = 0.1 * static_cast<double>(i + 1);
  }
  const RegressionDataset<Full> data(xs, MarginalDistribution(mean, var));
  const auto ds = extract_from_variants<T>(data);
  c.check(ds.features == want, "extract-dataset-features");
  c.check(ds.targets.mean.size() == static_cast<Eigen::Index>(idx.size()) &&
              ds.targets.covariance.diagonal().size() == static_cast<Eigen::Index>(idx.size()),
          "extract-dataset-size");
  for (std::size_t k = 0; k < idx.size() && k < static_cast<std::size_t>(ds.targets.mean.size()); ++k) {
    const auto e = static_cast<Eigen::Index>(k), o = static_cast<Eigen::Index>(idx[k]);
    c.check(ds.targets.mean[e] == mean[o] && ds.targets.covariance.diagonal()[e] == var[o],
            "extract-dataset-pairing", "from " + show_all(xs));
  }
  c.step(4);
}

} // namespace

MC_SCENARIO(extract_every_vector) {
  const int n = c.range(0, mc::tiered(5, 7));
  std::vector<Full> xs;
  for (int i = 0; i < n; ++i)
    xs.push_back(full(c, i));
  c << show_all(xs);
  c.state(c.text);
  const auto before = show_all(xs);
  extraction<A>(c, xs);
  extraction<B>(c, xs);
  extraction<C>(c, xs);
  extraction<double>(c, xs);
  c.check(show_all(xs) == before, "argument-changed");
}

// Assignment over every previous content.
MC_SCENARIO(set_variant_every_pair) {
  Full target = full(c, 90);
  const int kind = c.choose(6);
  std::string want;
  if (kind == 0) {
    set_variant(A{1}, &target);
    want = "A1";
  } else if (kind == 1) {
    set_variant(B{2}, &target);
    want = "B2";
  } else if (kind == 2) {
    set_variant(C{3}, &target);
    want = "C3";
  } else if (kind == 3) {
    set_variant(2.5, &target);
    want = "d" + std::to_string(2.5);
  } else if (kind == 4) {
    const Sub s = sub(c, 7);
    want = show(s);
    set_variant(s, &target);
  } else {
    const Full f = full(c, 8);
    want = show(f);
    set_variant(f, &target);
  }
  c.state(want);
  c.check(show(target) == want, "set_variant", "got " + show(target) + " want " + want);
}

MC_SCENARIO(set_variants_every_vector) {
  const int n = c.range(0, 4);
  std::vector<Sub> xs;
  std::string want;
  for (int i = 0; i < n; ++i) {
    xs.push_back(sub(c, i));
    want += show(xs.back()) + " ";
  }
  c << want;
  // the target vector may hold anything before, of any length
  std::vector<Full> target;
  const int m = c.range(0, 5);
  for (int i = 0; i < m; ++i)
    target.push_back(i % 2 ? Full(C{50 + i}) : Full(1.0 * i));
  set_variants(xs, &target);
  c.state(want + std::to_string(m));
  c.check(show_all(target) == want, "set_variants", "got " + show_all(target) + " want " + want);
  c.check(show_all(to_variant_vector<Full>(xs)) == want, "to_variant_vector");
  std::vector<Full> from_plain;
  std::vector<B> bs;
  std::string wb;
  for (int i = 0; i < n; ++i) {
    bs.push_back(B{i * 3});
    wb += "B" + std::to_string(i * 3) + " ";
  }
  set_variants(bs, &from_plain);
  c.check(show_all(from_plain) == wb, "set_variants-plain");
  c.check(show_all(to_variant_vector<Full>(bs)) == wb, "to_variant_vector-plain");
}

// Longer vectors of regular shapes, everywhere.
MC_SCENARIO(large_vectors) {
  const int n = c.pick({6, 8, 9, 16, 17, 33, 64, 65, 129, 300});
  const int shape = c.choose(8);
  auto which = [&](int i) {
    const int k[] = {i % 4, (i / 2) % 4, (n - i) % 3, i == n - 1 ? 1 : 0, i == 0 ? 2 : 0, 4 * i / n, (i * 7 % 5) % 4, 3};
    return k[shape];
  };
  std::vector<Full> xs;
  std::vector<Sub> ss;
  std::vector<bool> bits;
  std::vector<int> numbers;
  bool every = true, some = false;
  std::string want_sub;
  for (int i = 0; i < n; ++i) {
    const int k = which(i);
    if (k == 0)
      xs.push_back(A{i});
    else if (k == 1)
      xs.push_back(B{i});
    else if (k == 2)
      xs.push_back(C{i});
    else
      xs.push_back(i + 0.5);
    ss.push_back(k % 2 ? Sub(A{i}) : Sub(B{i}));
    want_sub += (k % 2 ? "A" : "B") + std::to_string(i) + " ";
    bits.push_back(k > 0);
    every = every && k > 0;
    some = some || k > 0;
    numbers.push_back(k * 1000 + i);
  }
  c << "n=" << n << " shape=" << shape;
  c.state(c.text);
  extraction<A>(c, xs);
  extraction<B>(c, xs);
  extraction<C>(c, xs);
  extraction<double>(c, xs);
  c.check(all(bits) == every && any(bits) == some, "all-any", c.text);
  for (int i = 0; i < n; ++i)
    c.check(vector_contains(numbers, which(i) * 1000 + i) && !vector_contains(numbers, 5000 + i), "vector_contains", c.text);
  for (int before : {0, 3, n, n + 7}) {
    std::vector<Full> target(static_cast<std::size_t>(before), Full(C{-1}));
    set_variants(ss, &target);
    c.check(show_all(target) == want_sub, "set_variants", c.text);
  }
  c.check(show_all(to_variant_vector<Full>(ss)) == want_sub, "to_variant_vector", c.text);
}

MC_SCENARIO(boolean_vectors) {
  const int n = c.range(0, mc::tiered(8, 12));
  std::vector<bool> xs;
  bool every = true, some = false;
  std::string s;
  for (int i = 0; i < n; ++i) {
    xs.push_back(c.flip());
    every = every && xs.back();
    some = some || xs.back();
    s += xs.back() ? '1' : '0';
  }
  c << s;
  c.state(s);
  c.check(all(xs) == every, "all");
  c.check(any(xs) == some, "any");
  c.check(vector_contains(xs, true) == some, "contains-bool");
}

MC_SCENARIO(membership) {
  const int n = c.range(0, 4);
  std::vector<int> xs;
  for (int i = 0; i < n; ++i)
    xs.push_back(c.choose(4));
  std::string s;
  for (int x : xs)
    s += std::to_string(x);
  c.state(s);
  for (int k = -1; k < 5; ++k)
    c.check(vector_contains(xs, k) == (std::count(xs.begin(), xs.end(), k) > 0), "vector_contains");
}

MC_SCENARIO(linspace_every_count) {
  const std::vector<double> ends = {-2.0, -0.1, 0.0, 0.3, 1.0, 1e6};
  const double a = c.pick(ends), b = c.pick(ends);
  const int bound = mc::tiered(60, 300);
  const int which = c.range(1, bound + 4);
  const std::size_t n = static_cast<std::size_t>(which <= bound ? which : std::vector<int>{101, 500, 1000, 4097}[static_cast<std::size_t>(which - bound - 1)]);
  c << "linspace(" << a << "," << b << "," << n << ")";
  c.state(c.text);
  const auto xs = linspace(a, b, n);
  c.check(xs.size() == n, "linspace-size");
  const double scale = std::fabs(a) + std::fabs(b) + 1e-300;
  for (std::size_t i = 0; i < xs.size(); ++i) {
    const double want = n == 1 ? a : a + (b - a) * static_cast<double>(i) / static_cast<double>(n - 1);
    c.close(xs[i], want, "linspace-value", "at " + std::to_string(i), 0, 1e-12 * scale);
  }
}

MC_SCENARIO(index_conversions) {
  const int kind = c.choose(6);
  const long long big = 1ll << 53;
  const std::vector<long long> values = {0, 1, 2, 3, 1000, 123456789, (1ll << 31) - 1, 1ll << 31, (1ll << 32) + 5, big - 1, big};
  const long long v = c.pick(values);
  c.state(std::to_string(kind) + ":" + std::to_string(v));
  if (kind == 0)
    c.check(static_cast<long long>(cast::to_size(static_cast<Eigen::Index>(v))) == v, "to_size");
  else if (kind == 1)
    c.check(cast::to_index(static_cast<std::size_t>(v)) == v, "to_index");
  else if (kind == 2)
    c.check(static_cast<long long>(cast::to_double(static_cast<std::size_t>(v))) == v, "to_double-size");
  else if (kind == 3)
    c.check(static_cast<long long>(cast::to_double(static_cast<Eigen::Index>(-v))) == -v, "to_double-index");
  else if (kind == 4)
    c.check(safe_cast_to_size_t(static_cast<double>(v)) == static_cast<std::size_t>(v) &&
                (v > (1ll << 40) || safe_cast_to_size_t(static_cast<double>(v) + 0.75) == static_cast<std::size_t>(v)),
            "safe_cast_to_size_t");
  else {
    // what can not be represented is refused
    c.assume(v > 0);
    c.check(mc::dies([&] { (void)cast::to_size(static_cast<Eigen::Index>(-v)); }), "to_size-refuses");
    c.check(mc::dies([&] { (void)cast::to_double(static_cast<std::size_t>(big + v)); }), "to_double-refuses");
    c.check(mc::dies([&] { (void)cast::to_double(static_cast<Eigen::Index>(-big - v)); }), "to_double-refuses");
    c.check(mc::dies([&] { (void)cast::to_index(static_cast<std::size_t>(-v)); }), "to_index-refuses");
    c.check(mc::dies([&] { (void)safe_cast_to_size_t(static_cast<double>(-v)); }), "safe_cast-refuses-negative");
    c.check(mc::dies([&] { (void)safe_cast_to_size_t(1.9e19 + static_cast<double>(v)); }), "safe_cast-refuses-large");
    c.check(mc::dies([&] { (void)safe_cast_to_size_t(NAN); }), "safe_cast-refuses-nan");
    if (v == 1)
      for (double x : {18446744073709551616.0, 36893488147419103232.0, 1e300, HUGE_VAL, -HUGE_VAL, -1e-9, -0.5})
        c.check(mc::dies([&] { (void)safe_cast_to_size_t(x); }), "safe_cast-refuses", std::to_string(x));
  }
}
