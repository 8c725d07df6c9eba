// C31: threads which work on objects of their own do not disturb each other (under ThreadSanitizer)
#include "jobs.h"
VP_SCENARIO(independent, 1) {
  std::vector<std::pair<const char*, Job>> jobs{{"tables", tables},       {"catalogs", catalogs}, {"arrays", arrays}, {"grids", grids}, {"functions", functions},
                                                {"distributions", distributions}, {"maps", maps},         {"texts", texts}};
  std::unique_ptr<Tree> tree;
  tree.reset(new Tree());
  std::string root = tree->dir.path;
  jobs.push_back({"datasets", [root](uint64_t s) { return datasets(s, root); }});
  static vp::ScratchDir own;  // not where others list datasets
  jobs.push_back({"files", [](uint64_t s) { return files(s, own.path); }});
  jobs.push_back({"pools", pools});
  unsigned                 n = rng.in(2, 6);
  std::atomic<unsigned>    ready{0};
  bool                     alike = rng.chance(0.5);  // all threads in the same kind of work
  size_t                   kind  = rng.below(jobs.size());
  struct Result {
    size_t      job;
    uint64_t    seed;
    std::string got;
    bool        threw;
  };
  std::vector<std::vector<Result>> results(n);
  for (auto& mine : results) {
    for (size_t k = rng.in(2, 8); k > 0; --k) {
      mine.push_back({alike ? kind : rng.below(jobs.size()), rng.next(), "", false});
    }
  }
  std::vector<std::thread> threads;
  for (unsigned t = 0; t < n; ++t) {
    threads.emplace_back([&, t] {
      ++ready;
      while (ready < n) {
      }
      for (auto& r : results[t]) {
        try {
          r.got = jobs[r.job].second(r.seed);
        } catch (const std::exception& e) {
          r.got   = e.what();
          r.threw = true;
        }
      }
    });
  }
  for (auto& t : threads) {
    t.join();
  }
  // the same work, with nobody around
  for (auto& mine : results) {
    for (auto& r : mine) {
      VP_CHECK(!r.threw, std::string("independent:") + jobs[r.job].first, "threw with other threads around: " << r.got);
      auto alone = jobs[r.job].second(r.seed);
      VP_CHECK(alone == r.got, std::string("independent:") + jobs[r.job].first, "work of " << r.seed << " comes out differently with other threads around");
      vp::cover(std::string("work.") + jobs[r.job].first);
      vp::cover("works");
      vp::distinct(vp::mix(vp::fnv(std::string(jobs[r.job].first)), r.seed));
    }
  }
  vp::cover("threads", n);
  vp::cover("alike", alike);
  if (vp::wantSample()) {
    vp::sample(std::to_string(n) + " threads, " + (alike ? jobs[kind].first : "mixed"));
  }
}
VP_MAIN()
