// C16: threaded evaluation equals serial evaluation under every schedule.
#include <albatross/Common>
#include <albatross/Dataset>
#include <albatross/Indexing>
#include <albatross/utils/AsyncUtils>

#include <atomic>
#include <unordered_map>

#include "mc.h"
#include "mc_sched.h"

using namespace albatross;

namespace {

struct Oops : public std::runtime_error {
  int id;
  explicit Oops(int i) : std::runtime_error("oops " + std::to_string(i)), id(i) {}
};

constexpr int MOST = 16;
// What happened to the applications of one call.  Each application only
// touches the slot of its own element, so any disorder is the library's.
struct Log {
  int begun[MOST] = {}, ended[MOST] = {};
  int argument[MOST] = {};
  std::atomic<int> returned{0}, late{0};
};

int bound(int quick, int deep) { return mc::tiered(quick, deep); }

// Runs `call` (which applies an f over elements 0..n-1 on a pool) and
// compares with the plain loop.  throws: which elements throw.
struct Trial {
  mc::Ctx &c;
  Log log;
  std::vector<bool> throws;
  bool interior;
  int n;
  Trial(mc::Ctx &c_, int n_) : c(c_), interior(true), n(n_) {}

  // Two threads may have trials: what they find is reported at the end.
  struct Finding {
    const char *key;
    std::string msg;
  };
  std::vector<Finding> findings;
  void check(bool ok, const char *key, const std::string &msg) {
    if (!ok)
      findings.push_back({key, msg});
  }

  int apply_one(int id) {
    if (log.returned.load(std::memory_order_relaxed))
      log.late.fetch_add(1, std::memory_order_relaxed);
    ++log.begun[id];
    if (interior)
      sched::point();
    if (throws[static_cast<std::size_t>(id)]) {
      if (log.returned.load(std::memory_order_relaxed))
        log.late.fetch_add(1, std::memory_order_relaxed);
      ++log.ended[id];
      throw Oops(id);
    }
    if (log.returned.load(std::memory_order_relaxed))
      log.late.fetch_add(1, std::memory_order_relaxed);
    ++log.ended[id];
    return 100 + id;
  }

  // Returns true if the call is expected to (and did) return normally.
  template <typename F> bool run(F &&call, const char *what) {
    int thrown = -1;
    try {
      call();
    } catch (const Oops &e) {
      thrown = e.id;
    }
    log.returned.store(1, std::memory_order_relaxed);
    sched::point();
    int first = -1;
    for (int i = n; i-- > 0;)
      if (throws[static_cast<std::size_t>(i)])
        first = i;
    check(thrown == first, "exception", std::string(what) + ": got that of " + std::to_string(thrown) + ", the serial evaluation throws that of " + std::to_string(first));
    return first < 0 && thrown < 0;
  }
  // After the pool is gone, so nothing runs any more.
  void finish(const char *what, bool serial) {
    for (const auto &f : findings)
      c.check(false, f.key, f.msg);
    c.check(log.late.load() == 0, "outlives", std::string(what) + ": an application ran after the call had returned");
    int stop = n;
    if (serial)
      for (int i = n; i-- > 0;)
        if (throws[static_cast<std::size_t>(i)])
          stop = i + 1;
    for (int i = 0; i < n; ++i) {
      const std::string at = std::string(what) + " element " + std::to_string(i);
      c.check(log.begun[i] <= 1 && log.begun[i] == log.ended[i], "once", at);
      if (i < stop && stop == n)
        c.check(log.begun[i] == 1, "every-element", at);
    }
  }
};

std::vector<bool> throwing(mc::Ctx &c, int n) {
  std::vector<bool> t(static_cast<std::size_t>(n), false);
  // none, any one, or any two of them
  const int k = c.choose(3);
  int last = -1;
  for (int j = 0; j < k; ++j) {
    if (last + 1 >= n)
      break;
    last = c.range(last + 1, n - 1);
    t[static_cast<std::size_t>(last)] = true;
  }
  return t;
}

template <typename M> M keyed(int n) {
  M m;
  for (int i = 0; i < n; ++i)
    m[static_cast<char>('a' + i)] = i;
  return m;
}

struct Moveable { // results may be move only
  std::unique_ptr<int> p;
};

enum Form { VOID_V, VALUE_V, MOVE_V, BOOL_V, VOID_MAP, VALUE_MAP, VOID_KV, VALUE_KV, GROUPED, GROUPED_KV, GROUP_BY, FORMS };
const char *form_name(int f) {
  static const char *names[] = {"void vector", "value vector", "move-only vector", "bool vector", "void map", "value map", "void key-value", "value key-value", "grouped", "grouped key-value", "group_by"};
  return names[f];
}

void one(int form, ThreadPool *pool, Trial &t) {
  const int n = t.n;
  std::vector<int> xs;
  for (int i = 0; i < n; ++i)
    xs.push_back(i);
  // the serial evaluation maps key -> value in the order of the map
  using Map = std::map<char, int>;
  const auto values = [&](const auto &out, const char *key) {
    t.check(static_cast<int>(out.size()) == n, key, form_name(form));
    int i = 0;
    for (const auto &kv : out) {
      t.check(kv.first == 'a' + i && kv.second == 100 + i, key, form_name(form));
      ++i;
    }
  };
  switch (form) {
  case VOID_V: {
    t.run([&] { albatross::apply(xs, [&](const int &x) { t.apply_one(x); }, pool); }, form_name(form));
    break;
  }
  case VALUE_V: {
    std::vector<int> out;
    if (t.run([&] { out = albatross::apply(xs, [&](const int &x) { return t.apply_one(x); }, pool); }, form_name(form))) {
      t.check(static_cast<int>(out.size()) == n, "result", form_name(form));
      for (int i = 0; i < static_cast<int>(out.size()); ++i)
        t.check(out[static_cast<std::size_t>(i)] == 100 + i, "result", form_name(form));
    }
    break;
  }
  case BOOL_V: {
    std::vector<bool> out;
    if (t.run([&] { out = albatross::apply(xs, [&](const int &x) { return t.apply_one(x) % 2 == 0; }, pool); }, form_name(form))) {
      t.check(static_cast<int>(out.size()) == n, "result", form_name(form));
      for (int i = 0; i < static_cast<int>(out.size()); ++i)
        t.check(out[static_cast<std::size_t>(i)] == (i % 2 == 0), "result", form_name(form));
    }
    break;
  }
  case MOVE_V: {
    std::vector<Moveable> out;
    if (t.run([&] { out = albatross::apply(xs, [&](const int &x) { return Moveable{std::make_unique<int>(t.apply_one(x))}; }, pool); }, form_name(form))) {
      t.check(static_cast<int>(out.size()) == n, "result", form_name(form));
      for (int i = 0; i < static_cast<int>(out.size()); ++i)
        t.check(*out[static_cast<std::size_t>(i)].p == 100 + i, "result", form_name(form));
    }
    break;
  }
  case VOID_MAP: {
    const Map m = keyed<Map>(n);
    t.run([&] { albatross::apply(m, [&](const int &x) { t.apply_one(x); }, pool); }, form_name(form));
    break;
  }
  case VALUE_MAP: {
    const Map m = keyed<Map>(n);
    Grouped<char, int> out;
    if (t.run([&] { out = albatross::apply(m, [&](const int &x) { return t.apply_one(x); }, pool); }, form_name(form)))
      values(out, "result");
    break;
  }
  case VOID_KV: {
    const Map m = keyed<Map>(n);
    t.run([&] {
      albatross::apply(m, [&](const char &k, const int &x) {
        t.log.argument[x] = k;
        t.apply_one(x);
      }, pool);
    }, form_name(form));
    break;
  }
  case VALUE_KV: {
    const Map m = keyed<Map>(n);
    Grouped<char, int> out;
    if (t.run([&] { out = albatross::apply(m, [&](const char &k, const int &x) { return t.apply_one(x) + (k - 'a' - x); }, pool); }, form_name(form)))
      values(out, "result");
    break;
  }
  case GROUPED: {
    const Grouped<char, int> m(keyed<Map>(n));
    Grouped<char, int> out;
    if (t.run([&] { out = albatross::apply(m, [&](const int &x) { return t.apply_one(x); }, pool); }, form_name(form)))
      values(out, "result");
    break;
  }
  case GROUPED_KV: {
    const Grouped<char, int> m(keyed<Map>(n));
    Grouped<char, int> out;
    if (t.run([&] { out = m.apply([&](const char &k, const int &x) { return t.apply_one(x) + (k - 'a' - x); }, pool); }, form_name(form)))
      values(out, "result");
    break;
  }
  default: {
    // two elements of each group
    std::vector<int> twice;
    for (int i = 0; i < n; ++i) {
      twice.insert(twice.begin(), i);
      twice.push_back(i);
    }
    Grouped<int, int> out;
    if (t.run([&] {
          out = group_by(twice, [](const int &x) { return x; }).apply([&](const int &k, const std::vector<int> &g) {
            return t.apply_one(k) + (g.size() == 2 && g[0] == k && g[1] == k ? 0 : 1000);
          }, pool);
        }, form_name(form))) {
      t.check(static_cast<int>(out.size()) == n, "result", form_name(form));
      int i = 0;
      for (const auto &kv : out) {
        t.check(kv.first == i && kv.second == 100 + i, "result", form_name(form));
        ++i;
      }
    }
    break;
  }
  }
}

void explore(mc::Ctx &c, int form, int n, int workers, int preemptions) {
  Trial t(c, n);
  t.throws = throwing(c, n);
  std::string s = std::string(form_name(form)) + " " + std::to_string(n) + " on " + std::to_string(workers) + " throwing ";
  for (int i = 0; i < n; ++i)
    if (t.throws[static_cast<std::size_t>(i)])
      s += std::to_string(i) + " ";
  c << s;
  c.state(s);
  sched::run(c, [&] {
    ThreadPool pool(static_cast<std::size_t>(workers));
    one(form, &pool, t);
  }, preemptions);
  t.finish(form_name(form), workers <= 1);
}
} // namespace

// No pool, an empty pool, a pool of one: the serial evaluation itself.
MC_SCENARIO(serial_pools) {
  const int form = c.choose(FORMS), n = c.range(0, 3);
  Trial t(c, n);
  t.throws = throwing(c, n);
  const int kind = c.choose(3);
  c << form_name(form) << " " << n << " kind " << kind;
  c.state(std::to_string(form) + std::to_string(n) + std::to_string(kind));
  t.interior = false;
  sched::run(c, [&] {
    if (kind == 0) {
      one(form, nullptr, t);
    } else {
      ThreadPool pool(static_cast<std::size_t>(kind - 1));
      one(form, &pool, t);
    }
  }, 0);
  t.finish(form_name(form), true);
}

MC_SCENARIO(small_pools) {
  explore(c, c.choose(FORMS), c.range(0, 2), 2, bound(2, 4));
}
MC_SCENARIO(three_elements_two_workers) {
  explore(c, c.choose(FORMS), 3, 2, bound(1, 2));
}
MC_SCENARIO(three_elements_three_workers) {
  explore(c, c.pick<int>({VOID_V, VALUE_V, VALUE_MAP, VALUE_KV}), 3, 3, bound(1, 2));
}
MC_SCENARIO(four_elements_two_workers) {
  explore(c, c.pick<int>({VALUE_V, GROUPED_KV}), 4, 2, bound(1, 2));
}
MC_SCENARIO_THOROUGH(deep_two_elements) {
  explore(c, c.choose(FORMS), 2, 2, 6);
}
MC_SCENARIO_THOROUGH(five_elements) {
  explore(c, c.pick<int>({VOID_V, VALUE_V, VALUE_KV}), 5, 3, 1);
}

// More elements than any schedule explored above: nothing but the choices at
// which a thread has to wait, nothing or one element throws.
MC_SCENARIO(many_elements) {
  const int form = c.choose(FORMS), n = c.range(5, mc::tiered(9, 13)), which = c.choose(n + 1), workers = c.pick<int>({0, 1, 2, 3});
  Trial t(c, n);
  t.throws = std::vector<bool>(static_cast<std::size_t>(n), false);
  if (which < n)
    t.throws[static_cast<std::size_t>(which)] = true;
  const std::string s = std::string(form_name(form)) + " " + std::to_string(n) + " on " + std::to_string(workers) + " throwing " + std::to_string(which);
  t.interior = workers > 1;
  c << s;
  c.state(s);
  sched::run(c, [&] {
    ThreadPool pool(static_cast<std::size_t>(workers));
    one(form, &pool, t);
  }, 0);
  t.finish(form_name(form), workers <= 1);
}

// A pool is used again after a call, whether it returned or threw.
MC_SCENARIO(calls_in_sequence) {
  const int n = 2;
  const int first = c.pick<int>({VOID_V, VALUE_V, VOID_MAP, VALUE_KV}), second = c.pick<int>({VALUE_V, VALUE_MAP});
  Trial a(c, n), b(c, n);
  a.throws = throwing(c, n);
  b.throws = std::vector<bool>(n, false);
  c << form_name(first) << " then " << form_name(second);
  c.state(std::to_string(first) + std::to_string(second) + std::to_string(a.throws[0]) + std::to_string(a.throws[1]));
  sched::run(c, [&] {
    ThreadPool pool(2);
    one(first, &pool, a);
    one(second, &pool, b);
  }, bound(1, 2));
  a.finish(form_name(first), false);
  b.finish(form_name(second), false);
}

// Two threads of the user share one pool.
MC_SCENARIO(two_clients) {
  const int n = mc::tiered(1, 2);
  const int first = c.pick<int>({VOID_V, VALUE_V, VALUE_KV}), second = c.pick<int>({VALUE_V, VALUE_MAP});
  Trial a(c, n), b(c, 2);
  a.throws = std::vector<bool>(static_cast<std::size_t>(n), false);
  b.throws = throwing(c, 2);
  c << form_name(first) << " and " << form_name(second);
  c.state(std::to_string(first) + std::to_string(second) + std::to_string(b.throws[0]) + std::to_string(b.throws[1]));
  sched::run(c, [&] {
    ThreadPool pool(2);
    const int id = sched::thread_new();
    std::thread other([&] {
      sched::worker_begin(id);
      one(second, &pool, b);
      sched::worker_end();
    });
    one(first, &pool, a);
    sched::thread_wait(id);
    other.join();
  }, bound(1, 2));
  a.finish(form_name(first), false);
  b.finish(form_name(second), false);
}

// make_shared_thread_pool, get_thread_count
MC_SCENARIO(pool_sizes) {
  const std::size_t n = static_cast<std::size_t>(c.range(0, 6));
  c << n;
  c.state(std::to_string(n));
  sched::run(c, [&] {
    const auto pool = make_shared_thread_pool(n);
    const std::size_t want = n == 0 ? get_default_thread_count() : n;
    c.check(get_thread_count(pool) == want, "pool-size", std::to_string(n));
    c.check(get_default_thread_count() >= 1, "default-count");
    c.check((n == 1) == (pool == nullptr) , "one-is-serial", std::to_string(n));
  }, 0);
}
