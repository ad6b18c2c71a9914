//@ mt preempt=2,3 time=400,850 parts=threads:2;wait:2;work:2
//# Tasks with dependencies on a real thread pool under every schedule within the preemption bound: each task runs exactly once, after all its dependencies completed (it sees the values they computed); the pool finishes all queued work; no deadlock, lost wake-up, data race or use after free.
//b 3 tasks with every acyclic dependency relation (symbolic), symbolic payloads, the first task with or without a work item, 1-2 worker threads, <=2 preemptions (thorough 3) plus all blocking switches; pool destroyed either after waiting for all tasks or immediately after scheduling
//s absl::Mutex modelled; std::thread modelled as symbolic threads; nice() is a no-op
#include "symx.h"
#include "cartographer/common/thread_pool.h"
#include "cartographer/common/task.h"
#include "absl/memory/memory.h"
using namespace cartographer;
extern "C" void symx_main() {
  const int threads = 1 + symx_choose("threads", 2), wait = symx_choose("wait", 2), work = symx_choose("work", 2);
  bool dep[3][3] = {};
  int in[3], out[3] = {0, 0, 0}, want[3];
  for (int i = 0; i < 3; ++i) {
    in[i] = symx_irange("payload", 1, 1 << 20);
    want[i] = in[i];
    for (int d = 0; d < i; ++d) {
      dep[i][d] = symx_bool("depends");
      if (dep[i][d]) want[i] += want[d];
    }
  }
  const int first = work ? 0 : 1;  // without a work item the first task computes nothing
  if (!work) out[0] = want[0];
  absl::Mutex m;
  int runs[3] = {0, 0, 0};
  int total = first;
  {
    common::ThreadPool pool(threads);
    std::weak_ptr<common::Task> handle[3];
    for (int i = 0; i < 3; ++i) {
      auto task = absl::make_unique<common::Task>();
      if (i >= first) task->SetWorkItem([&, i]() {
        int sum = in[i];
        // dependencies are read without a lock: the pool must have ordered us after them
        for (int d = 0; d < i; ++d) if (dep[i][d]) sum += out[d];
        out[i] = sum;
        absl::MutexLock l(&m);
        ++runs[i]; ++total;
      });
      for (int d = 0; d < i; ++d) if (dep[i][d]) task->AddDependency(handle[d]);
      handle[i] = pool.Schedule(std::move(task));
    }
    // wait for completion of all tasks, or leave that to the destructor
    if (wait) {
      absl::MutexLock l(&m);
      const auto done = [&]() { return total == 3; };
      m.Await(absl::Condition(&done));
    }
  }
  for (int i = 0; i < 3; ++i) {
    symx_assert(runs[i] == (i >= first), "every task runs exactly once");
    symx_assert(out[i] == want[i], "a task sees the results of the tasks it depends on");
  }
  symx_reach("end");
}
