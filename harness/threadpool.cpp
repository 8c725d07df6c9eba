// C01 / C02: the pool delivers every task exactly once; failures and destruction are orderly.
#define VP_PERTURB_IMPL
#include "perturb.h"
#include "AlexandriaKernel/ThreadPool.h"
#include <condition_variable>
using Euclid::ThreadPool;

namespace {

struct Gate {
  std::mutex              m;
  std::condition_variable cv;
  bool                    open = false;
  void wait() {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [this] { return open; });
  }
  void release() {
    std::lock_guard<std::mutex> l(m);
    open = true;
    cv.notify_all();
  }
};

// The trace monitor: every start / end / throw is appended here
struct Trace {
  std::mutex                       m;
  std::vector<std::pair<int, int>> ev;  // (kind, task)
  int                              running = 0, max_running = 0, started = 0, finished = 0;
  std::vector<int>                 starts;
  explicit Trace(size_t n) : starts(n, 0) {}
  // returns number of lower-numbered tasks not started yet
  int start(int i) {
    std::lock_guard<std::mutex> l(m);
    ev.emplace_back(0, i);
    ++running;
    ++started;
    max_running = std::max(max_running, running);
    ++starts[i];
    int skipped = 0;
    for (int j = 0; j < i; ++j) {
      skipped += starts[j] == 0;
    }
    return skipped;
  }
  void end(int i) {
    std::lock_guard<std::mutex> l(m);
    ev.emplace_back(1, i);
    --running;
    ++finished;
  }
  uint64_t hash() {
    uint64_t h = 5;
    for (auto& e : ev) {
      h = vp::mix(h, e.first * 100003 + e.second);
    }
    return h;
  }
};

void work(uint64_t kind) {
  switch (kind % 6) {
  case 0:
  case 1:
    break;
  case 2:
    sched_yield();
    break;
  case 3: {
    volatile int x = 0;
    for (int i = 0; i < 2000; ++i) {
      x = x + i;
    }
    break;
  }
  case 4:
    std::this_thread::sleep_for(std::chrono::microseconds(20 + kind % 200));
    break;
  default:
    std::this_thread::sleep_for(std::chrono::microseconds(200 + kind % 900));
  }
}

void expectAllOnce(Trace& t, size_t n, const char* where) {
  std::lock_guard<std::mutex> l(t.m);
  for (size_t i = 0; i < n; ++i) {
    VP_CHECK(t.starts[i] == 1, t.starts[i] == 0 ? "task-lost" : "task-run-twice",
             where << ": task " << i << " of " << n << " ran " << t.starts[i] << " times");
  }
  VP_CHECK(t.running == 0, "block-returned-early", where << ": " << t.running << " tasks still running");
}

}  // namespace

#ifdef VP_C01
// one submitter, several rounds on the same pool
VP_SCENARIO(rounds, 6) {
  vp::perturb(rng);
  unsigned   w    = rng.in(1, rng.chance(0.2) ? 12 : 5);
  unsigned   wait = rng.pick(std::vector<int>{0, 1, 1, 2, 5});
  ThreadPool pool(w, wait);
  int        rounds = rng.in(1, 4);
  for (int r = 0; r < rounds; ++r) {
    int                  n = rng.chance(0.1) ? rng.in(0, 1) : rng.in(2, 60);
    Trace                t(n);
    std::vector<int64_t> slot(n, -1);  // plain memory: written by the workers, read after block()
    for (int i = 0; i < n; ++i) {
      uint64_t k = rng.next();
      pool.submit([&, i, k, w] {
        int skipped = t.start(i);
        VP_EXPECT(skipped < (int)w, "not-submission-order",
                  "task " << i << " started while " << skipped << " earlier tasks had not, with " << w << " workers");
        work(k);
        slot[i] = i * 7 + 1;
        t.end(i);
      });
      if (rng.chance(0.1)) {
        work(rng.next());
      }
      if (rng.chance(0.05)) {
        int    before = [&] { std::lock_guard<std::mutex> l(t.m); return t.started; }();
        size_t q      = pool.queued();
        VP_CHECK(q <= size_t(i + 1 - before), "queued-count", "queued()=" << q << " after " << i + 1 << " submissions, " << before << " started");
        VP_CHECK(pool.running() <= w && pool.activeThreads() == w, "status-count", "running()/activeThreads() out of range");
      }
    }
    pool.block();
    VP_CHECK(pool.queued() == 0, "queued-count", "queued()=" << pool.queued() << " after block");
    expectAllOnce(t, n, "rounds");
    VP_CHECK(t.max_running <= (int)w, "too-many-running", t.max_running << " tasks at once on " << w << " workers");
    for (int i = 0; i < n; ++i) {
      VP_CHECK(slot[i] == i * 7 + 1, "effects-not-visible", "slot " << i << " = " << slot[i]);
    }
    VP_CHECK(!pool.checkForException(), "spurious-exception", "checkForException() true though no task threw");
    VP_CHECK(pool.activeThreads() == w, "status-count", "activeThreads()=" << pool.activeThreads() << " of " << w);
    vp::cover("tasks_observed", n);
    if (w == 1) {
      // single worker: strict order
      int e = 0;
      for (auto& x : t.ev) {
        if (x.first == 0) {
          VP_CHECK(x.second == e++, "not-submission-order", "one worker started task " << x.second << " in position " << e - 1);
        }
      }
      vp::cover("single_worker_orders");
    }
    if (t.max_running > 1) {
      vp::cover("overlapping_rounds");
      vp::distinct(t.hash());
    }
  }
  vp::cover("perturbations", vp::perturbCount().exchange(0));
  if (vp::wantSample()) {
    vp::sample("rounds: workers=" + std::to_string(w) + " wait=" + std::to_string(wait) + "ms rounds=" + std::to_string(rounds));
  }
}

// several submitters and status readers at the same time
VP_SCENARIO(submitters, 4) {
  vp::perturb(rng);
  unsigned          w = rng.in(1, 6);
  int               s = rng.in(2, 5), per = rng.in(1, 30), n = s * per;
  ThreadPool        pool(w, rng.in(0, 2));
  Trace             t(n);
  std::vector<int>  slot(n, 0);
  std::atomic<bool> stop{false};
  std::thread       reader([&] {
    while (!stop) {
      VP_EXPECT(pool.queued() <= size_t(n), "queued-count", "queued() larger than what was submitted");
      VP_EXPECT(pool.running() <= w, "status-count", "running() above the worker count");
      VP_EXPECT(pool.activeThreads() == w, "status-count", "activeThreads() changed");
      VP_EXPECT(!pool.checkForException(), "spurious-exception", "no task threw");
      std::this_thread::sleep_for(std::chrono::microseconds(300));
    }
  });
  std::vector<std::thread> ts;
  std::vector<uint64_t>    kinds(n);
  for (auto& k : kinds) {
    k = rng.next();
  }
  for (int a = 0; a < s; ++a) {
    ts.emplace_back([&, a] {
      for (int i = 0; i < per; ++i) {
        int id = a * per + i;
        pool.submit([&, id] {
          t.start(id);
          work(kinds[id]);
          slot[id] = id + 1;
          t.end(id);
        });
      }
    });
  }
  for (auto& x : ts) {
    x.join();
  }
  pool.block();
  stop = true;
  reader.join();
  expectAllOnce(t, n, "submitters");
  VP_CHECK(t.max_running <= (int)w, "too-many-running", t.max_running << " tasks at once on " << w << " workers");
  for (int i = 0; i < n; ++i) {
    VP_CHECK(slot[i] == i + 1, "effects-not-visible", "slot " << i);
  }
  // per submitter order, with the slack of w workers
  for (int a = 0; a < s; ++a) {
    std::vector<bool> seen(per, false);
    for (auto& e : t.ev) {
      if (e.first == 0 && e.second / per == a) {
        int i = e.second % per, skipped = 0;
        for (int j = 0; j < i; ++j) {
          skipped += !seen[j];
        }
        seen[i] = true;
        VP_CHECK(skipped < (int)w, "not-submission-order", "submitter " << a << " task " << i << " overtook " << skipped);
      }
    }
  }
  vp::cover("tasks_observed", n);
  vp::cover("concurrent_submitter_runs");
  vp::distinct(t.hash());
}

// tasks that submit tasks (finished submitting before block() is entered)
VP_SCENARIO(nested, 3) {
  vp::perturb(rng);
  unsigned         w = rng.in(1, 5);
  int              n = rng.in(1, 12), kids = rng.in(1, 4);
  ThreadPool       pool(w, rng.in(0, 2));
  Trace            t(n * (kids + 1));
  std::atomic<int> submitted{0};
  for (int i = 0; i < n; ++i) {
    pool.submit([&, i] {
      t.start(i);
      for (int k = 0; k < kids; ++k) {
        int id = n + i * kids + k;
        pool.submit([&, id] {
          t.start(id);
          work(id);
          t.end(id);
        });
      }
      t.end(i);
      ++submitted;
    });
  }
  while (submitted < n) {
    std::this_thread::sleep_for(std::chrono::microseconds(200));
  }
  pool.block();
  expectAllOnce(t, n * (kids + 1), "nested");
  vp::cover("nested_submissions", n * kids);
  vp::distinct(t.hash());
}

// no workers: synchronous execution in the submitting call
VP_SCENARIO(noworkers, 2) {
  vp::perturbLevel() = 0;
  ThreadPool       pool(0, 1);
  int              n = rng.in(1, 20), depth = rng.in(0, 4);
  std::vector<int> order;
  std::thread::id  me = std::this_thread::get_id();
  std::function<void(int, int)> run = [&](int i, int d) {
    VP_CHECK(std::this_thread::get_id() == me, "other-thread", "a pool without workers ran a task on another thread");
    order.push_back(i);
    if (d > 0) {
      pool.submit([&, i, d] { run(i + 1000, d - 1); });
    }
    VP_CHECK(pool.queued() == 0, "queued-count", "queued() != 0 in a pool without workers");
  };
  for (int i = 0; i < n; ++i) {
    order.clear();
    pool.submit([&, i] { run(i, depth); });
    VP_CHECK(order.size() == size_t(depth + 1), order.size() > size_t(depth + 1) ? "task-run-twice" : "task-lost",
             "submit() returned after " << order.size() << " of " << depth + 1 << " runs");
    for (int d = 0; d <= depth; ++d) {
      VP_CHECK(order[d] == i + 1000 * d, "not-submission-order", "nested order");
    }
  }
  pool.block();
  vp::cover("synchronous_runs", n);
  if (depth) {
    vp::cover("reentrant_submissions", n * depth);
  }
}
// no workers, several submitting threads: each task is run by its own submitter, exactly once
VP_SCENARIO(noworkersMT, 1) {
  vp::perturb(rng);
  ThreadPool       pool(0, 1);
  int              s = rng.in(2, 4), per = rng.in(1, 20);
  std::vector<int> runs(s * per, 0);
  std::vector<std::thread> ts;
  for (int a = 0; a < s; ++a) {
    ts.emplace_back([&, a] {
      for (int i = 0; i < per; ++i) {
        pool.submit([&, a, i] { ++runs[a * per + i]; });
        VP_EXPECT(runs[a * per + i] == 1, "task-lost", "submit() returned before its task ran");
      }
    });
  }
  for (auto& t : ts) {
    t.join();
  }
  pool.block();
  for (auto r : runs) {
    VP_CHECK(r == 1, "task-run-twice", "ran " << r << " times");
  }
  vp::cover("synchronous_runs", s * per);
}
#endif

#ifdef VP_C02
namespace {
struct Boom : std::runtime_error {
  int id;
  explicit Boom(int i) : std::runtime_error("boom " + std::to_string(i)), id(i) {}
};

// what block()/checkForException(true) rethrew: id of the Boom, -1000-x for a thrown int x, -1 nothing
template <typename F>
int rethrown(F&& f) {
  try {
    f();
  } catch (const Boom& b) {
    return b.id;
  } catch (int x) {
    return 100000 + x;
  }
  return -1;
}
}  // namespace

// random throwers among random tasks
VP_SCENARIO(throwers, 6) {
  vp::perturb(rng);
  unsigned      w = rng.in(1, 6);
  int           n = rng.in(1, 50);
  double        p = rng.pick(std::vector<double>{0.02, 0.1, 0.5, 1.0});
  std::vector<int> mode(n, 0);  // 0 ok, 1 throws Boom, 2 throws int
  bool          any = false;
  for (auto& m : mode) {
    if (rng.chance(p)) {
      m   = rng.chance(0.8) ? 1 : 2;
      any = true;
    }
  }
  if (!any) {
    mode[rng.below(n)] = 1;
  }
  Trace t(n);
  int   started_after_block;
  {
    ThreadPool        pool(w, rng.in(0, 2));
    std::atomic<bool> stop{false};
    std::atomic<bool> seen{false};
    bool              with_reader = rng.chance(0.5);
    std::thread       reader;
    if (with_reader) {
      reader = std::thread([&] {
        bool was = false;
        while (!stop) {
          bool now = pool.checkForException();
          VP_EXPECT(now || !was, "exception-forgotten", "checkForException() went from true to false");
          was = now;
          pool.activeThreads();
          pool.queued();
          pool.running();
          std::this_thread::sleep_for(std::chrono::microseconds(100));
        }
        seen = was;
      });
    }
    for (int i = 0; i < n; ++i) {
      uint64_t k = rng.next();
      pool.submit([&, i, k] {
        t.start(i);
        work(k);
        t.end(i);
        if (mode[i] == 1) {
          throw Boom(i);
        } else if (mode[i] == 2) {
          throw i;
        }
      });
    }
    int got = rethrown([&] { pool.block(); });
    stop    = true;
    if (with_reader) {
      reader.join();
    }
    VP_CHECK(got != -1, "exception-lost", "block() returned normally although a task threw");
    int id = got >= 100000 ? got - 100000 : got;
    {
      std::lock_guard<std::mutex> l(t.m);
      VP_CHECK(t.running == 0, "block-returned-early", t.running << " tasks running when block() threw");
      VP_CHECK(id >= 0 && id < n && t.starts[id] == 1 && mode[id] == (got >= 100000 ? 2 : 1), "wrong-exception",
               "block() rethrew " << got << " which no task threw");
      started_after_block = t.started;
    }
    for (int i = 0; i < n; ++i) {
      VP_CHECK(t.starts[i] <= 1, "task-run-twice", "task " << i << " ran " << t.starts[i] << " times");
    }
    if (w == 1) {
      int first = 0;
      while (!mode[first]) {
        ++first;
      }
      VP_CHECK(t.started == first + 1, "started-after-failure", "one worker: task " << first << " threw, " << t.started << " tasks ran");
      VP_CHECK(id == first, "wrong-exception", "one worker: expected exception of task " << first << ", got " << id);
    }
    VP_CHECK(pool.checkForException(), "exception-forgotten", "checkForException() is false after block() threw");
    int again = rethrown([&] { pool.checkForException(true); });
    VP_CHECK(again != -1, "exception-forgotten", "checkForException(true) did not rethrow");
    if (rng.chance(0.5)) {
      int more = rng.in(1, 5);
      std::atomic<int> ran{0};
      for (int i = 0; i < more; ++i) {
        pool.submit([&] { ++ran; });
      }
      VP_CHECK(rethrown([&] { pool.block(); }) != -1, "exception-forgotten", "second block() did not rethrow");
      VP_CHECK(ran == 0, "started-after-failure", ran << " tasks submitted after the failure ran");
    }
    std::lock_guard<std::mutex> l(t.m);
    VP_CHECK(t.started == started_after_block, "started-after-failure", "tasks started after block() threw");
  }
  VP_CHECK(t.started == started_after_block && t.running == 0, "started-after-failure", "tasks started during destruction after a failure");
  vp::cover("failed_pools");
  vp::cover("tasks_discarded_after_failure", n - t.started);
  if (t.max_running > 1) {
    vp::cover("failed_with_overlap");
  }
  vp::distinct(t.hash());
  if (vp::wantSample()) {
    vp::sample("throwers: workers=" + std::to_string(w) + " tasks=" + std::to_string(n) + " started=" + std::to_string(t.started));
  }
}

// a failure is seen by the caller while the other workers are held: no queued task may start any more
VP_SCENARIO(heldworkers, 5) {
  vp::perturb(rng);
  unsigned w     = rng.in(1, 6);
  int      extra = rng.in(1, 30);
  bool     others_throw = rng.chance(0.3);
  Trace    t(w + extra);
  Gate     gate, go;
  std::atomic<unsigned> in{0};
  unsigned thrower = rng.below(w);
  {
    ThreadPool pool(w, rng.in(0, 2));
    for (unsigned i = 0; i < w; ++i) {
      pool.submit([&, i] {
        t.start(i);
        ++in;
        if (i == thrower) {
          go.wait();
          t.end(i);
          throw Boom(i);
        }
        gate.wait();
        t.end(i);
        if (others_throw) {
          throw Boom(i);
        }
      });
    }
    for (int i = 0; i < extra; ++i) {
      int id = w + i;
      pool.submit([&, id] {
        t.start(id);
        t.end(id);
      });
    }
    while (in < w) {
      std::this_thread::sleep_for(std::chrono::microseconds(100));
    }
    VP_CHECK(!pool.checkForException(), "spurious-exception", "nothing thrown yet");
    go.release();
    while (!pool.checkForException()) {
      std::this_thread::sleep_for(std::chrono::microseconds(100));
    }
    gate.release();
    int got = -1;
    bool by_block = rng.chance(0.7);
    if (by_block) {
      got = rethrown([&] { pool.block(); });
      VP_CHECK(got >= 0 && got < (int)w && (others_throw || got == (int)thrower), "wrong-exception", "block() rethrew " << got);
      std::lock_guard<std::mutex> l(t.m);
      VP_CHECK(t.running == 0 && t.finished == (int)w, "block-returned-early", t.finished << " of " << w << " running tasks finished when block() threw");
    }
  }
  VP_CHECK(t.started == (int)w, "started-after-failure", t.started - (int)w << " queued tasks started after the failure was visible");
  VP_CHECK(t.finished == (int)w, "destroyed-early", "running tasks had not finished when the pool was gone");
  vp::cover("held_failures");
  vp::distinct(vp::mix(t.hash(), w * 100 + extra));
}

// destruction: running tasks are waited for, the queue is dropped
VP_SCENARIO(destroyHeld, 4) {
  vp::perturb(rng);
  unsigned              w = rng.in(1, 6);
  int                   n = w + rng.in(0, 20);
  Trace                 t(n);
  std::atomic<unsigned> in{0};
  {
    ThreadPool pool(w, rng.in(0, 3));
    for (int i = 0; i < n; ++i) {
      pool.submit([&, i] {
        t.start(i);
        ++in;
        std::this_thread::sleep_for(std::chrono::milliseconds(3 + i % 5));
        t.end(i);
      });
    }
    if (rng.chance(0.8)) {
      while (in == 0) {
        std::this_thread::sleep_for(std::chrono::microseconds(50));
      }
    }
  }
  {
    std::lock_guard<std::mutex> l(t.m);
    VP_CHECK(t.running == 0, "destroyed-early", t.running << " tasks running after the pool was destroyed");
    for (int i = 0; i < n; ++i) {
      VP_CHECK(t.starts[i] <= 1, "task-run-twice", "task " << i);
    }
  }
  int s = t.started;
  std::this_thread::sleep_for(std::chrono::milliseconds(2));
  VP_CHECK(t.started == s, "started-after-destruction", "tasks started after the destructor returned");
  vp::cover("destructions");
  vp::cover("tasks_discarded_by_destruction", n - s);
  vp::distinct(vp::mix(t.hash(), w * 100 + n));
}

// destruction must not drain the queue. A single slow schedule could make one attempt look like draining, hence the
// three attempts.
VP_SCENARIO(destroyDiscards, 1) {
  vp::perturbLevel() = 0;
  unsigned w = rng.in(1, 4);
  int      worst = 0, n = 300;
  for (int attempt = 0; attempt < 3; ++attempt) {
    std::atomic<int> started{0};
    {
      ThreadPool pool(w, 1);
      for (int i = 0; i < n; ++i) {
        pool.submit([&] {
          ++started;
          std::this_thread::sleep_for(std::chrono::milliseconds(3));
        });
      }
      while (started == 0) {
        std::this_thread::sleep_for(std::chrono::microseconds(100));
      }
    }
    worst = started;
    if (worst < n / 2) {
      break;
    }
  }
  VP_CHECK(worst < n / 2, "destructor-drains", "the destructor ran " << worst << " of " << n << " queued tasks, three times in a row");
  vp::cover("discard_runs");
}

// no workers: the exception of a task reaches the submitter, and the pool stays usable
VP_SCENARIO(noworkersThrow, 1) {
  ThreadPool pool(0, 1);
  bool       thrown = false;
  try {
    pool.submit([] { throw Boom(3); });
    pool.block();
  } catch (const Boom& b) {
    thrown = b.id == 3;
  }
  VP_CHECK(thrown, "exception-lost", "a pool without workers swallowed the exception");
  vp::cover("synchronous_failures");
}

// short lived and idle pools
VP_SCENARIO(shortlived, 2) {
  vp::perturb(rng);
  for (int i = 0; i < 5; ++i) {
    unsigned   w = rng.in(0, 5);
    ThreadPool pool(w, rng.in(0, 2));
    if (rng.chance(0.3)) {
      pool.block();
    }
    if (rng.chance(0.3)) {
      pool.submit([] {});
    }
    if (rng.chance(0.3)) {
      pool.block();
      pool.block();
    }
  }
  vp::cover("short_lived_pools", 5);
}
#endif
VP_MAIN()
