// sched.cc - see sched.h.  Built WITHOUT -fsanitize=thread.
#include "mc_sched.h"

#include <atomic>
#include <bits/atomic_futex.h>
#include <chrono>
#include <climits>
#include <exception>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" {
void AnnotateIgnoreReadsBegin(const char *, int) __attribute__((weak));
void AnnotateIgnoreReadsEnd(const char *, int) __attribute__((weak));
void AnnotateIgnoreWritesBegin(const char *, int) __attribute__((weak));
void AnnotateIgnoreWritesEnd(const char *, int) __attribute__((weak));
void __tsan_acquire(void *) __attribute__((weak));
void __tsan_release(void *) __attribute__((weak));
int __tsan_get_report_data(void *report, const char **description, int *count,
                           int *stack_count, int *mop_count, int *loc_count,
                           int *mutex_count, int *thread_count,
                           int *unique_tid_count, void **sleep_trace,
                           unsigned long trace_size) __attribute__((weak));
int __tsan_get_report_mop(void *report, unsigned long idx, int *tid,
                          void **addr, int *size, int *write, int *atomic,
                          void **trace, unsigned long trace_size)
    __attribute__((weak));
void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out_buf,
                              unsigned long out_buf_size)
    __attribute__((weak));

const char *__tsan_default_options() {
  return "halt_on_error=0:exitcode=0:suppress_equal_stacks=0:"
         "suppress_equal_addresses=0:report_thread_leaks=0:"
         "report_signal_unsafe=0:history_size=3:atexit_sleep_ms=0";
}
}

namespace sched {
namespace {

struct Quiet { // nothing in here concerns the race detector
  Quiet() {
    if (AnnotateIgnoreReadsBegin) {
      AnnotateIgnoreReadsBegin(__FILE__, __LINE__);
      AnnotateIgnoreWritesBegin(__FILE__, __LINE__);
    }
  }
  ~Quiet() {
    if (AnnotateIgnoreReadsBegin) {
      AnnotateIgnoreWritesEnd(__FILE__, __LINE__);
      AnnotateIgnoreReadsEnd(__FILE__, __LINE__);
    }
  }
};

constexpr int MAX_THREADS = 32, MAX_TASKS = 512;

struct Thread {
  int word;                  // 1: has the baton
  bool used, ended;
  bool (*ready)(void *);     // null: runnable
  void *arg;
  Pool *pool;                // idle worker of that pool
  bool idle, has_run;
  unsigned *futex;           // waiting for a future
  bool futex_set;
} threads[MAX_THREADS];

int n_threads, current, budget;
bool is_active;
mc::Ctx *ctx;
alignas(std::exception_ptr) unsigned char stop_storage[sizeof(std::exception_ptr)];
std::exception_ptr *stop; // the engine abandoned this execution
int n_races;
std::size_t n_switches;
thread_local int me = -1;

void futex_wait(int *w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) {
    syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
  __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}

void hand_to(int i) {
  current = i;
  __atomic_store_n(&threads[i].word, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, &threads[i].word, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr,
          0);
}

bool enabled(int i) {
  Thread &t = threads[i];
  if (!t.used || t.ended)
    return false;
  return t.ready == nullptr || t.ready(t.arg);
}

// Picks the next thread; the caller may be blocked or ended.
int pick() {
  int options[MAX_THREADS], n = 0;
  const bool can_stay = enabled(me);
  if (can_stay)
    options[n++] = me;
  if (!can_stay || budget > 0) {
    for (int i = 0; i < n_threads; ++i) {
      if (i == me || !enabled(i))
        continue;
      // idle workers of one pool with the same past are interchangeable
      bool twin = false;
      if (threads[i].idle) {
        for (int j = 0; j < i; ++j)
          twin = twin || (j != me && enabled(j) && threads[j].idle &&
                          threads[j].pool == threads[i].pool &&
                          threads[j].has_run == threads[i].has_run);
      }
      if (!twin)
        options[n++] = i;
    }
  }
  if (n == 0) {
    std::fprintf(stderr, "deadlock: every thread is blocked\n");
    ctx->report("deadlock", "every thread is blocked");
    std::fflush(nullptr);
    _exit(99);
  }
  int which = 0;
  if (n > 1 && !*stop && budget >= 0) {
    try {
      which = ctx->choose(n);
    } catch (...) {
      *stop = std::current_exception();
      which = 0;
    }
  }
  ctx->step();
  const int next = options[which];
  if (can_stay && next != me)
    --budget;
  return next;
}

void reschedule() {
  const int next = pick();
  if (next != me) {
    ++n_switches;
    hand_to(next);
    futex_wait(&threads[me].word);
  }
}

void block(bool (*ready)(void *), void *arg) {
  threads[me].ready = ready;
  threads[me].arg = arg;
  reschedule();
  threads[me].ready = nullptr;
}
} // namespace

struct Pool {
  void *tasks[MAX_TASKS];
  int head, tail;
  bool stopping;
  int workers[MAX_THREADS];
  int n_workers;
};

namespace {
bool has_work(void *x) {
  Pool *p = static_cast<Pool *>(x);
  return p->stopping || p->head != p->tail;
}
} // namespace

bool active() { return is_active && me >= 0; }
int self() { return me; }
int races() { return n_races; }
std::size_t switches() { return n_switches; }

void run(mc::Ctx &c, const std::function<void()> &body, int preemptions) {
  {
    Quiet q;
    std::memset(threads, 0, sizeof threads);
    n_threads = 1;
    threads[0].used = true;
    current = 0;
    me = 0;
    budget = preemptions;
    ctx = &c;
    stop = new (stop_storage) std::exception_ptr();
    n_races = 0;
    n_switches = 0;
    is_active = true;
  }
  std::exception_ptr thrown;
  try {
    body();
  } catch (...) {
    thrown = std::current_exception();
  }
  Quiet q;
  for (int i = 1; i < n_threads; ++i) {
    if (!threads[i].ended) {
      std::fprintf(stderr, "a thread survived\n");
      std::abort();
    }
  }
  is_active = false;
  me = -1;
  std::exception_ptr s = *stop;
  stop->~exception_ptr();
  if (s)
    std::rethrow_exception(s);
  if (thrown)
    std::rethrow_exception(thrown);
  c.check(n_races == 0, "race", "a conflicting access which nothing orders");
}

void point() {
  if (!active())
    return;
  Quiet q;
  reschedule();
}

void wait_until(bool (*ready)(void *), void *arg) {
  Quiet q;
  block(ready, arg);
}

Pool *pool_new() {
  Quiet q;
  return new Pool();
}
void pool_delete(Pool *p) {
  Quiet q;
  delete p;
}

int thread_new() {
  Quiet q;
  if (n_threads >= MAX_THREADS)
    std::abort();
  const int i = n_threads++;
  threads[i].used = true;
  return i;
}
int worker_new(Pool *p) {
  const int i = thread_new();
  Quiet q;
  threads[i].pool = p;
  threads[i].idle = true;
  threads[i].ready = has_work;
  threads[i].arg = p;
  p->workers[p->n_workers++] = i;
  return i;
}
void worker_begin(int i) {
  Quiet q;
  me = i;
  futex_wait(&threads[i].word);
  threads[i].ready = nullptr;
  threads[i].idle = false;
}
void worker_end() {
  Quiet q;
  threads[me].ended = true;
  const int next = pick();
  me = -1;
  hand_to(next);
}

void *pool_take(Pool *p) {
  Quiet q;
  if (!has_work(p)) {
    threads[me].idle = true;
    block(has_work, p);
    threads[me].idle = false;
  }
  if (p->head == p->tail)
    return nullptr;
  void *t = p->tasks[p->head++];
  threads[me].has_run = true;
  if (__tsan_acquire)
    __tsan_acquire(t);
  // between taking a task and starting it
  reschedule();
  return t;
}
void pool_put(Pool *p, void *task) {
  Quiet q;
  if (p->tail >= MAX_TASKS)
    std::abort();
  if (__tsan_release)
    __tsan_release(task);
  p->tasks[p->tail++] = task;
  reschedule();
}
void pool_stop(Pool *p) {
  Quiet q;
  p->stopping = true;
  block([](void *x) {
    Pool *y = static_cast<Pool *>(x);
    for (int i = 0; i < y->n_workers; ++i)
      if (!threads[y->workers[i]].ended)
        return false;
    return true;
  }, p);
}
void thread_wait(int index) {
  Quiet q;
  block([](void *x) { return static_cast<Thread *>(x)->ended; },
        &threads[index]);
}

} // namespace sched

// ---- futures: the standard library waits and wakes through these ----
namespace std {
namespace {
struct Wait {
  unsigned *addr;
  unsigned val;
};
bool changed(void *x) {
  Wait *w = static_cast<Wait *>(x);
  return __atomic_load_n(w->addr, __ATOMIC_ACQUIRE) != w->val;
}
} // namespace
bool __atomic_futex_unsigned_base::_M_futex_wait_until(
    unsigned *addr, unsigned val, bool has_timeout, chrono::seconds,
    chrono::nanoseconds) {
  if (sched::active()) {
    Wait w{addr, val};
    sched::wait_until(changed, &w);
    return true;
  }
  syscall(SYS_futex, addr, FUTEX_WAIT_PRIVATE, val, nullptr, nullptr, 0);
  return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(
    unsigned *addr, unsigned val, bool has_timeout, chrono::seconds s,
    chrono::nanoseconds ns) {
  return _M_futex_wait_until(addr, val, has_timeout, s, ns);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *addr) {
  if (!sched::active())
    syscall(SYS_futex, addr, FUTEX_WAKE_PRIVATE, INT_MAX, nullptr, nullptr, 0);
}
} // namespace std

extern "C" void __tsan_on_report(void *report) {
  ++sched::n_races;
  const char *what = "";
  if (__tsan_get_report_data) {
    int a, b, mops = 0, d, e, f, g;
    void *trace[1];
    __tsan_get_report_data(report, &what, &a, &b, &mops, &d, &e, &f, &g, trace,
                           0);
  }
  std::fprintf(stderr, "race detector: %s\n", what);
}
