// A ThreadPool with the surface albatross uses, every scheduling decision of
// which is made by the model checker (see support/mc/mc_sched.h).
#ifndef VERIF_CONTROLLED_THREAD_POOL_H
#define VERIF_CONTROLLED_THREAD_POOL_H

#include <cstddef>
#include <functional>
#include <future>
#include <memory>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>

#include "mc_sched.h"

class ThreadPool {
  struct TaskBase {
    virtual void run() = 0;
    virtual ~TaskBase() {}
  };
  template <typename R, typename Bound> struct Task : public TaskBase {
    std::packaged_task<R()> task;
    explicit Task(Bound &&b) : task(std::move(b)) {}
    void run() override { task(); }
  };

public:
  explicit ThreadPool(
      std::size_t threads, std::function<void()> init = []() {},
      std::size_t /* stack_size */ = 0)
      : pool_(sched::pool_new()) {
    for (std::size_t i = 0; i < threads; ++i) {
      const int index = sched::worker_new(pool_);
      workers_.emplace_back([this, init, index] {
        sched::worker_begin(index);
        init();
        while (void *t = sched::pool_take(pool_)) {
          {
            std::unique_ptr<TaskBase> task(static_cast<TaskBase *>(t));
            task->run();
          }
          sched::point();
        }
        sched::worker_end();
      });
    }
  }

  ThreadPool(const ThreadPool &) = delete;
  ThreadPool &operator=(const ThreadPool &) = delete;

  ~ThreadPool() {
    sched::pool_stop(pool_);
    for (std::thread &worker : workers_) {
      worker.join();
    }
    sched::pool_delete(pool_);
  }

  template <class F, class... Args>
  auto enqueue(F &&f, Args &&... args)
      -> std::future<std::invoke_result_t<std::decay_t<F>,
                                          std::decay_t<Args>...>> {
    using R = std::invoke_result_t<std::decay_t<F>, std::decay_t<Args>...>;
    auto bound = std::bind(std::forward<F>(f), std::forward<Args>(args)...);
    auto *task = new Task<R, decltype(bound)>(std::move(bound));
    std::future<R> result = task->task.get_future();
    sched::pool_put(pool_, static_cast<TaskBase *>(task));
    return result;
  }

  std::size_t thread_count() const { return workers_.size(); }

private:
  sched::Pool *pool_;
  std::vector<std::thread> workers_;
};

#endif
