// sched.h - a controlled scheduler for real threads.
//
// Under sched::run exactly one thread runs at any time.  At every scheduling
// point (enqueue, a worker taking a task, the start, an interior point and the
// end of a task, a wait for a future, the end of a thread) the scheduler picks
// the next thread by a choice of the model checker, so every schedule up to a
// bound on the number of preemptions is explored.  The threads are real ones,
// the code is built with ThreadSanitizer, and the hand-over between threads is
// invisible to it: it only sees the happens-before edges which the code itself
// makes (thread creation and join, task submission, futures), so a conflicting
// access which these do not order is reported as a race in that schedule.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H

#include <functional>
#include "mc.h"

namespace sched {

// Explores the schedules of body (which may create ThreadPools); with a
// negative number of preemptions only the first one.
void run(mc::Ctx &c, const std::function<void()> &body, int preemptions);

// A scheduling point of the calling thread (nothing outside of run).
void point();
// The calling thread waits until the predicate holds.
void wait_until(bool (*ready)(void *), void *arg);
// Index of the calling thread: 0 is the main one.
int self();
// Number of race reports since run began.
int races();
// How many schedules switched between threads inside of a task.
std::size_t switches();

// ---- used by the controlled ThreadPool ----
struct Pool;
Pool *pool_new();
void pool_delete(Pool *);
// Announces a new worker of the pool: returns its thread index.
int worker_new(Pool *);
void worker_begin(int index);
void worker_end();
// Blocks until there is a task (or the pool stops: nullptr).
void *pool_take(Pool *);
void pool_put(Pool *, void *task);
void pool_stop(Pool *); // and waits until all its workers have ended
// Any other controlled thread.
int thread_new();
void thread_wait(int index);

bool active();
} // namespace sched

#endif
