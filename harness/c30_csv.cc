// C30: what is written as CSV is read back, column by column.
#include <albatross/serialize/Core>
#include <albatross/src/utils/csv_utils.hpp>
#include "mc.h"

using albatross::JointDistribution;
using albatross::MarginalDistribution;
using albatross::RegressionDataset;
using mapbox::util::variant;

namespace {

using Table = std::vector<std::vector<std::string>>;
using Row = std::map<std::string, std::string>;

// A reader of its own: fields separated by commas, records by line breaks, a
// field in quotes holds anything with quotes doubled (RFC 4180).
Table read_csv(const std::string &s, bool *well_formed) {
  Table out;
  std::vector<std::string> row;
  std::string cell;
  bool quoted = false, was_quoted = false;
  *well_formed = true;
  for (std::size_t i = 0; i < s.size(); ++i) {
    const char ch = s[i];
    if (quoted) {
      if (ch == '"' && i + 1 < s.size() && s[i + 1] == '"') {
        cell += '"';
        ++i;
      } else if (ch == '"') {
        quoted = false;
      } else {
        cell += ch;
      }
    } else if (ch == '"' && cell.empty() && !was_quoted) {
      quoted = was_quoted = true;
    } else if (ch == ',' || ch == '\n') {
      row.push_back(cell);
      cell.clear();
      was_quoted = false;
      if (ch == '\n') {
        out.push_back(row);
        row.clear();
      }
    } else {
      if (was_quoted)
        *well_formed = false;
      cell += ch;
    }
  }
  if (quoted)
    *well_formed = false;
  if (!cell.empty() || !row.empty() || was_quoted) {
    row.push_back(cell);
    out.push_back(row);
  }
  return out;
}

bool same_number(const std::string &cell, double want) {
  char *end = nullptr;
  const double got = std::strtod(cell.c_str(), &end);
  if (end == cell.c_str() || *end != '\0')
    return false;
  return std::isnan(want) ? std::isnan(got) : got == want;
}

const std::vector<double> kNumbers = {0.1, 0., -1.5, 1e-9, 123456789.25, 1e300, std::numeric_limits<double>::quiet_NaN(),
                                      std::numeric_limits<double>::infinity(), 1. / 3.};
const std::vector<std::string> kTexts = {"x", "a,b", "\"q\"", "two words", "a\nb", "<&>'", ",", "he said \"a,b\"", "trailing ", "\""};

// What is expected under a column: a number or a text.
struct Value {
  bool number;
  double x;
  std::string text;
};
Value num(double x) { return {true, x, ""}; }
Value txt(const std::string &s) { return {false, 0., s}; }
using Expected = std::map<std::string, Value>;

// ---- features -----------------------------------------------------------

struct Inner {
  double one = 0.;
  int two = 0;
  template <typename Archive> void serialize(Archive &ar) {
    ar(cereal::make_nvp("one", one));
    ar(cereal::make_nvp("two", two));
  }
};
struct Nested {
  double foo = 0.;
  std::string label = "l";
  Inner inner;
  bool has_extra = false;
  int extra = 0;
  variant<double, Inner> either;
  template <typename Archive> void save(Archive &ar) const {
    ar(cereal::make_nvp("foo", foo));
    ar(cereal::make_nvp("label", label));
    ar(cereal::make_nvp("inner", inner));
    if (has_extra)
      ar(cereal::make_nvp("extra", extra));
    ar(cereal::make_nvp("either", either));
  }
  template <typename Archive> void load(Archive &) {}
};

Nested make_nested(mc::Ctx &c, Expected *want) {
  Nested n;
  n.foo = c.pick<double>({0.1, 1e-9, -1. / 3.});
  n.label = c.pick<std::string>({"x", "a,b", "\"q\"\n"});
  n.inner.one = 0.7;
  n.inner.two = -3;
  n.has_extra = c.flip();
  n.extra = 12;
  (*want)["foo"] = num(n.foo);
  (*want)["label"] = txt(n.label);
  (*want)["inner.one"] = num(0.7);
  (*want)["inner.two"] = num(-3);
  if (n.has_extra)
    (*want)["extra"] = num(12);
  if (c.flip()) {
    n.either = n.inner;
    (*want)["either.which"] = num(1);
    (*want)["either.data.one"] = num(0.7);
    (*want)["either.data.two"] = num(-3);
  } else {
    n.either = 2.5;
    (*want)["either.which"] = num(0);
    (*want)["either.data"] = num(2.5);
  }
  return n;
}

} // namespace

namespace own {
// A feature with a `to_map` of its own.
struct Custom {
  double x;
  std::string note;
};
std::map<std::string, std::string> to_map(const Custom &f) {
  std::map<std::string, std::string> out;
  std::ostringstream os;
  os.precision(17);
  os << f.x;
  out["x"] = os.str();
  out["comma, in the name"] = f.note;
  return out;
}
} // namespace own

namespace {

// The rows which were read hold what was expected, each in its column.
void check_table(mc::Ctx &c, const std::string &text, const std::vector<Expected> &want, bool header,
                 const std::vector<std::string> &columns_without_header = {}) {
  c.state(text);
  bool well_formed;
  Table t = read_csv(text, &well_formed);
  c.check(well_formed, "csv-malformed", "a quote is out of place in " + text);
  std::vector<std::string> columns = columns_without_header;
  if (header) {
    c.check(!t.empty(), "csv-header-missing", "there is no header");
    if (t.empty())
      return;
    columns = t[0];
    t.erase(t.begin());
  }
  c.check(t.size() == want.size(), "csv-row-count", std::to_string(want.size()) + " data became " + std::to_string(t.size()) + " rows: " + text);
  std::set<std::string> unique(columns.begin(), columns.end());
  c.check(unique.size() == columns.size(), "csv-column-repeated", "a column is repeated: " + text);
  for (std::size_t i = 0; i < t.size() && i < want.size(); ++i) {
    c.check(t[i].size() == columns.size(), "csv-cell-count",
            std::to_string(t[i].size()) + " cells under " + std::to_string(columns.size()) + " columns: " + text);
    if (t[i].size() != columns.size())
      return;
    Row row;
    for (std::size_t j = 0; j < columns.size(); ++j)
      row[columns[j]] = t[i][j];
    for (const auto &w : want[i]) {
      c.check(row.count(w.first) == 1, "csv-column-missing", "there is no column " + w.first + " in " + text);
      if (!row.count(w.first))
        continue;
      const std::string &cell = row.at(w.first);
      c.check(w.second.number ? same_number(cell, w.second.x) : cell == w.second.text, "csv-cell-wrong",
              "row " + std::to_string(i) + " has '" + cell + "' under " + w.first + " in " + text);
    }
    // What a datum does not have is empty.
    for (const auto &cell : row)
      if (!want[i].count(cell.first) && cell.first.find("cereal_class_version") == std::string::npos &&
          cell.first.find("which_typeid") == std::string::npos)
        c.check(cell.second.empty(), "csv-cell-of-another", "row " + std::to_string(i) + " has '" + cell.second + "' under " + cell.first);
  }
  c.step();
}

template <typename F> struct Made {
  RegressionDataset<F> data;
  MarginalDistribution prediction;
  std::vector<Expected> rows;
};

// A data set of n features with targets and predictions.
template <typename F, typename Make> Made<F> make_dataset(mc::Ctx &c, int n, bool with_prediction, const Make &make, int serial = 0) {
  std::vector<F> features;
  std::vector<Expected> rows(n);
  Eigen::VectorXd y(n), v(n), p(n), pv(n);
  for (int i = 0; i < n; ++i) {
    features.push_back(make(c, i, &rows[i]));
    y[i] = 1. / (3. + i + serial);
    v[i] = 1e-7 * (i + 1);
    p[i] = -2. / (7. + i + serial);
    pv[i] = 1e5 / (3. + i);
  }
  if (n > 0 && serial == 0) {
    // one of the numbers is a special one
    const double x = c.pick(kNumbers);
    switch (c.choose(4)) {
    case 0:
      y[n - 1] = x;
      break;
    case 1:
      v[n - 1] = x;
      break;
    case 2:
      p[0] = x;
      break;
    default:
      pv[0] = x;
    }
  }
  if (!with_prediction) {
    p.setZero();
    pv.setZero();
  }
  for (int i = 0; i < n; ++i) {
    rows[i]["target"] = num(y[i]);
    rows[i]["target_variance"] = num(v[i]);
    if (with_prediction) {
      rows[i]["prediction"] = num(p[i]);
      rows[i]["prediction_variance"] = num(pv[i]);
    } else {
      rows[i]["prediction"] = num(0.);
      rows[i]["prediction_variance"] = num(0.);
    }
  }
  Made<F> m{RegressionDataset<F>(features, MarginalDistribution(y, v)), MarginalDistribution(p, pv), rows};
  return m;
}

template <typename F> void add_metadata(mc::Ctx &c, Made<F> &m, const std::string &suffix = "") {
  const int kind = c.choose(3);
  if (kind >= 1) {
    const std::string t = c.pick(kTexts) + suffix;
    m.data.metadata["time"] = t;
    for (auto &r : m.rows)
      r["time"] = txt(t);
  }
  if (kind == 2) {
    m.prediction.metadata["model"] = "a,b" + suffix;
    for (auto &r : m.rows)
      r["model"] = txt("a,b" + suffix);
  }
}

template <typename F> std::string write(mc::Ctx &c, const Made<F> &m, bool with_prediction, int joint) {
  std::ostringstream os;
  // how the stream formats numbers is no concern of the values
  os.precision(2);
  if (!with_prediction)
    albatross::write_to_csv(os, m.data);
  else if (joint) {
    JointDistribution j(m.prediction.mean, Eigen::MatrixXd(m.prediction.covariance));
    j.metadata = m.prediction.metadata;
    albatross::write_to_csv(os, m.data, j);
  } else
    albatross::write_to_csv(os, m.data, m.prediction);
  return os.str();
}

template <typename F, typename Make> void single(mc::Ctx &c, int most, const Make &make) {
  const int n = c.range(0, most);
  const bool with = c.flip();
  auto m = make_dataset<F>(c, n, with, make);
  const bool joint = with && c.flip();
  c << n << " data" << (with ? joint ? ", joint predictions" : ", predictions" : "");
  const std::string text = write(c, m, with, joint);
  c << ": " << text;
  check_table(c, text, m.rows, true);
}

double number(mc::Ctx &c, int i, Expected *want) {
  const double x = i == 0 ? c.pick(kNumbers) : 0.5 + i;
  (*want)["feature"] = num(x);
  return x;
}
int integer(mc::Ctx &c, int i, Expected *want) {
  const int x = c.pick<int>({0, -7, 2000000000});
  (*want)["value0"] = num(x);
  return x;
}
std::string text(mc::Ctx &c, int i, Expected *want) {
  const std::string x = i == 0 ? c.pick(kTexts) : "plain";
  (*want)["value0"] = txt(x);
  return x;
}
own::Custom custom(mc::Ctx &c, int i, Expected *want) {
  own::Custom f{c.pick<double>({0.1, 1e-9}), c.pick(kTexts)};
  (*want)["x"] = num(f.x);
  (*want)["comma, in the name"] = txt(f.note);
  return f;
}
std::vector<double> list(mc::Ctx &c, int i, Expected *want) {
  const int n = c.range(1, 3);
  std::vector<double> x;
  for (int j = 0; j < n; ++j) {
    x.push_back(0.1 * j + i);
    (*want)["value" + std::to_string(j)] = num(x.back());
  }
  return x;
}

} // namespace

MC_SCENARIO(numbers) { single<double>(c, 3, number); }
MC_SCENARIO(integers) { single<int>(c, 2, integer); }
MC_SCENARIO(texts) { single<std::string>(c, 2, text); }
MC_SCENARIO(nested) {
  single<Nested>(c, mc::tiered(2, 3), [](mc::Ctx &c, int, Expected *want) { return make_nested(c, want); });
}
MC_SCENARIO(lists) { single<std::vector<double>>(c, 2, list); }
MC_SCENARIO(customs) { single<own::Custom>(c, 2, custom); }

MC_SCENARIO(metadata) {
  const int n = c.range(1, 2);
  auto m = make_dataset<double>(c, n, true, number, 1);
  add_metadata(c, m);
  const std::string text = write(c, m, true, c.flip());
  c << text;
  check_table(c, text, m.rows, true);
}

MC_SCENARIO(without_a_header) {
  const int n = c.range(0, 2);
  auto m = make_dataset<double>(c, n, true, number, 1);
  const bool with = c.flip();
  std::ostringstream os, head;
  if (with) {
    albatross::write_to_csv(os, m.data, m.prediction, false);
  } else {
    albatross::write_to_csv(os, m.data, false);
    for (auto &r : m.rows) {
      r["prediction"] = num(0.);
      r["prediction_variance"] = num(0.);
    }
  }
  c << os.str();
  check_table(c, os.str(), m.rows, false, albatross::get_column_names(m.data, m.prediction));
}

MC_SCENARIO(chosen_columns) {
  // any columns in any order: extra ones are empty
  const int n = c.range(1, 2);
  auto m = make_dataset<double>(c, n, true, number, 1);
  const std::vector<std::string> all = {"target", "other", "feature", "prediction_variance"};
  std::vector<std::string> columns;
  const auto order = c.permutation(4);
  const int count = c.range(1, 4);
  for (int i = 0; i < count; ++i)
    columns.push_back(all[order[i]]);
  std::ostringstream os;
  albatross::write_header(os, columns);
  albatross::write_to_csv(os, m.data, m.prediction, columns);
  c << os.str();
  for (auto &r : m.rows)
    for (auto it = r.begin(); it != r.end();)
      it = std::find(columns.begin(), columns.end(), it->first) == columns.end() ? r.erase(it) : std::next(it);
  bool ok;
  const Table t = read_csv(os.str(), &ok);
  c.check(!t.empty() && t[0] == columns, "csv-columns-reordered", "the header differs from the columns");
  check_table(c, os.str(), m.rows, true);
}

namespace {
template <typename F, typename Make> void several(mc::Ctx &c, int most, const Make &make) {
  const int count = c.range(0, most);
  const bool joint = c.flip();
  std::vector<RegressionDataset<F>> data;
  std::vector<MarginalDistribution> marginals;
  std::vector<JointDistribution> joints;
  std::vector<Expected> rows;
  for (int d = 0; d < count; ++d) {
    const int n = c.range(0, 2);
    auto m = make_dataset<F>(c, n, true, make, d + 1);
    if (c.flip()) {
      // a column of its own
      const std::string key = c.flip() ? "time" : "kind " + std::to_string(d);
      m.data.metadata[key] = "t" + std::to_string(d);
      for (auto &r : m.rows)
        r[key] = txt("t" + std::to_string(d));
    }
    data.push_back(m.data);
    marginals.push_back(m.prediction);
    joints.emplace_back(m.prediction.mean, Eigen::MatrixXd(m.prediction.covariance));
    rows.insert(rows.end(), m.rows.begin(), m.rows.end());
  }
  std::ostringstream os;
  c << count << " data sets with " << rows.size() << " data";
  if (joint)
    albatross::write_to_csv(os, data, joints);
  else
    albatross::write_to_csv(os, data, marginals);
  c << ": " << os.str();
  check_table(c, os.str(), rows, true);
}
} // namespace

MC_SCENARIO(several_datasets) {
  several<int>(c, mc::tiered(2, 3), [](mc::Ctx &, int i, Expected *want) {
    (*want)["value0"] = num(i + 3);
    return i + 3;
  });
}
MC_SCENARIO(several_nested) {
  several<Nested>(c, 2, [](mc::Ctx &c, int i, Expected *want) {
    Nested n;
    n.foo = 0.1 + i;
    n.has_extra = c.flip();
    n.extra = 3;
    if (n.has_extra)
      (*want)["extra"] = num(3);
    n.either = 2.5;
    (*want)["foo"] = num(n.foo);
    (*want)["label"] = txt("l");
    (*want)["inner.one"] = num(0);
    (*want)["inner.two"] = num(0);
    (*want)["either.which"] = num(0);
    (*want)["either.data"] = num(2.5);
    return n;
  });
}

namespace {
// A stream which can not be positioned, such as a pipe.
struct Pipe : public std::streambuf {
  std::string got;
  int_type overflow(int_type ch) override {
    got += static_cast<char>(ch);
    return ch;
  }
};
} // namespace

MC_SCENARIO(pipes) {
  const int n = c.range(0, 2);
  auto m = make_dataset<double>(c, n, true, number, 1);
  Pipe pipe;
  std::ostream os(&pipe);
  albatross::write_to_csv(os, m.data, m.prediction);
  c << pipe.got;
  check_table(c, pipe.got, m.rows, true);
}

MC_SCENARIO(matrices) {
  const int rows = c.range(0, 3), cols = c.range(0, 3);
  Eigen::MatrixXd x(rows, cols);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j)
      x(i, j) = 1. / (1. + i * 5 + j);
  if (x.size())
    x(c.choose(rows), c.choose(cols)) = c.pick(kNumbers);
  std::ostringstream os;
  os.precision(2);
  albatross::write_to_csv(os, x);
  c << rows << "x" << cols << ": " << os.str();
  bool ok;
  const Table t = read_csv(os.str(), &ok);
  if (cols == 0)
    return;
  c.check(static_cast<int>(t.size()) == rows, "csv-matrix-rows", std::to_string(t.size()) + " rows");
  for (int i = 0; i < rows && i < static_cast<int>(t.size()); ++i) {
    c.check(static_cast<int>(t[i].size()) == cols, "csv-matrix-columns", std::to_string(t[i].size()) + " columns");
    for (int j = 0; j < cols && j < static_cast<int>(t[i].size()); ++j)
      c.check(same_number(t[i][j], x(i, j)), "csv-matrix-value", t[i][j] + " was written");
  }
}

// Larger files of a regular kind: numbers of every size, long texts of every
// byte, long lists, matrices.
namespace {
double of_any_size(int i, int kind) {
  switch (kind) {
  case 0:
    return (i % 2 ? -1. : 1.) * std::ldexp(1. + i / 7., (i * 37) % 2000 - 1000);
  case 1: // next to round numbers
    return std::nextafter(0.1 * i, i % 2 ? 1e300 : -1e300);
  case 2: // too small for a normal number, whole ones beyond 2^53, powers of ten
    return i % 3 == 0 ? std::ldexp(1. + i, -1074) : i % 3 == 1 ? 9007199254740993. * (i + 1) : std::pow(10., i % 30);
  default:
    return kNumbers[static_cast<std::size_t>(i) % kNumbers.size()];
  }
}
std::string long_text(int i) {
  std::string s;
  for (int k = 0; k < std::min(i * i * 3, 700); ++k)
    s += static_cast<char>(1 + (k * 7 + i) % 255);
  return "t" + s + "t";
}
} // namespace

MC_SCENARIO(large) {
  const int n = c.pick<int>({1, 4, 9, 10, 33, 120}), kind = c.choose(4), how = c.choose(4);
  c << n << " data of kind " << kind << ", feature " << how;
  const auto fill = [&](auto &m) {
    for (int i = 0; i < n; ++i) {
      m.data.targets.mean[i] = of_any_size(i, kind);
      m.data.targets.covariance.diagonal()[i] = std::fabs(of_any_size(i + 3, kind));
      m.prediction.mean[i] = of_any_size(2 * i + 1, kind);
      m.prediction.covariance.diagonal()[i] = std::fabs(of_any_size(3 * i + 1, kind));
      auto &r = m.rows[static_cast<std::size_t>(i)];
      r["target"] = num(m.data.targets.mean[i]);
      r["target_variance"] = num(m.data.targets.covariance.diagonal()[i]);
      r["prediction"] = num(m.prediction.mean[i]);
      r["prediction_variance"] = num(m.prediction.covariance.diagonal()[i]);
    }
    for (int k = 0; k < n; k += 9) {
      const std::string key = "m" + std::to_string(k), value = k % 2 ? long_text(k) : std::string("value, ") + std::to_string(k);
      m.data.metadata[key] = value;
      for (auto &r : m.rows)
        r[key] = txt(value);
    }
    check_table(c, write(c, m, true, n % 2), m.rows, true);
  };
  if (how == 0) {
    auto m = make_dataset<double>(c, n, true, [&](mc::Ctx &, int i, Expected *want) {
      const double x = of_any_size(5 * i + 2, kind);
      (*want)["feature"] = num(x);
      return x;
    }, 1);
    fill(m);
  } else if (how == 1) {
    auto m = make_dataset<std::string>(c, n, true, [&](mc::Ctx &, int i, Expected *want) {
      const std::string x = long_text(i);
      (*want)["value0"] = txt(x);
      return x;
    }, 1);
    fill(m);
  } else if (how == 2) {
    auto m = make_dataset<std::vector<double>>(c, n, true, [&](mc::Ctx &, int i, Expected *want) {
      std::vector<double> x;
      for (int j = 0; j < 1 + (i * 5) % 14; ++j) {
        x.push_back(of_any_size(i + 11 * j, kind));
        (*want)["value" + std::to_string(j)] = num(x.back());
      }
      return x;
    }, 1);
    fill(m);
  } else {
    auto m = make_dataset<Nested>(c, n, true, [&](mc::Ctx &, int i, Expected *want) {
      Nested f;
      f.foo = of_any_size(i + 1, kind);
      f.label = long_text(i);
      f.inner.one = of_any_size(i + 2, kind);
      f.inner.two = -i * 1000;
      f.has_extra = i % 3 == 1;
      f.extra = i;
      (*want)["foo"] = num(f.foo);
      (*want)["label"] = txt(f.label);
      (*want)["inner.one"] = num(f.inner.one);
      (*want)["inner.two"] = num(f.inner.two);
      if (f.has_extra)
        (*want)["extra"] = num(i);
      if (i % 4 == 2) {
        f.either = f.inner;
        (*want)["either.which"] = num(1);
        (*want)["either.data.one"] = num(f.inner.one);
        (*want)["either.data.two"] = num(f.inner.two);
      } else {
        f.either = of_any_size(i, kind);
        (*want)["either.which"] = num(0);
        (*want)["either.data"] = num(of_any_size(i, kind));
      }
      return f;
    }, 1);
    fill(m);
  }
}

MC_SCENARIO(large_matrices) {
  const int rows = c.pick<int>({1, 5, 17, 60}), cols = c.pick<int>({1, 4, 9, 40}), kind = c.choose(4);
  Eigen::MatrixXd x(rows, cols);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j)
      x(i, j) = of_any_size(i * 3 + j * 7, kind);
  std::ostringstream os;
  albatross::write_to_csv(os, x);
  c << rows << "x" << cols << " of kind " << kind;
  c.state(std::to_string(rows) + "x" + std::to_string(cols) + "/" + std::to_string(kind));
  bool ok;
  const Table t = read_csv(os.str(), &ok);
  c.check(ok && static_cast<int>(t.size()) == rows, "csv-matrix-rows", std::to_string(t.size()) + " rows");
  for (int i = 0; i < rows && i < static_cast<int>(t.size()); ++i) {
    c.check(static_cast<int>(t[static_cast<std::size_t>(i)].size()) == cols, "csv-matrix-columns", "row " + std::to_string(i));
    for (int j = 0; j < cols && j < static_cast<int>(t[static_cast<std::size_t>(i)].size()); ++j)
      c.check(same_number(t[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)], x(i, j)), "csv-matrix-value", t[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)] + " was written");
  }
}
