// Stand-in for the swift-nav ThreadPool fork (not installed here): the same
// public surface albatross uses (constructor from a count, an optional
// per-worker init function and stack size; enqueue; thread_count).
#ifndef VERIF_STANDIN_THREAD_POOL_H
#define VERIF_STANDIN_THREAD_POOL_H

#include <condition_variable>
#include <cstddef>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <queue>
#include <stdexcept>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>

class ThreadPool {
public:
  explicit ThreadPool(
      std::size_t threads, std::function<void()> init = []() {},
      std::size_t /* stack_size */ = 0)
      : stop_(false) {
    for (std::size_t i = 0; i < threads; ++i) {
      workers_.emplace_back([this, init] {
        init();
        work();
      });
    }
  }

  ThreadPool(const ThreadPool &) = delete;
  ThreadPool &operator=(const ThreadPool &) = delete;

  ~ThreadPool() {
    {
      std::unique_lock<std::mutex> lock(mutex_);
      stop_ = true;
    }
    condition_.notify_all();
    for (std::thread &worker : workers_) {
      worker.join();
    }
  }

  template <class F, class... Args>
  auto enqueue(F &&f, Args &&... args)
      -> std::future<std::invoke_result_t<std::decay_t<F>,
                                          std::decay_t<Args>...>> {
    using R = std::invoke_result_t<std::decay_t<F>, std::decay_t<Args>...>;
    auto task = std::make_shared<std::packaged_task<R()>>(
        std::bind(std::forward<F>(f), std::forward<Args>(args)...));
    std::future<R> result = task->get_future();
    {
      std::unique_lock<std::mutex> lock(mutex_);
      if (stop_) {
        throw std::runtime_error("enqueue on stopped ThreadPool");
      }
      tasks_.emplace([task]() { (*task)(); });
    }
    condition_.notify_one();
    return result;
  }

  std::size_t thread_count() const { return workers_.size(); }

private:
  void work() {
    for (;;) {
      std::function<void()> task;
      {
        std::unique_lock<std::mutex> lock(mutex_);
        condition_.wait(lock, [this] { return stop_ || !tasks_.empty(); });
        if (stop_ && tasks_.empty()) {
          return;
        }
        task = std::move(tasks_.front());
        tasks_.pop();
      }
      task();
    }
  }

  std::vector<std::thread> workers_;
  std::queue<std::function<void()>> tasks_;
  std::mutex mutex_;
  std::condition_variable condition_;
  bool stop_;
};

#endif
