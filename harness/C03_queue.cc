//@ mt preempt=3,4 time=200,800 parts=cap:2;timed:2
//# Producers and consumers on a bounded blocking queue under every schedule within the preemption bound: FIFO per producer, nothing lost or duplicated, capacity never exceeded, no deadlock, no data race.
//b 2 producers x 2 items (one producer with timeouts in the timed variants), 1 consumer, capacity 1..2, <=3 preemptions (thorough 4)
//s absl::Mutex modelled with its blocking semantics (await = wait until predicate holds); AwaitWithTimeout may time out at any point where its predicate is false
#include "symx.h"
#include "cartographer/common/internal/blocking_queue.h"
#include <thread>
#include <memory>
#include <vector>
using namespace cartographer;
extern "C" void symx_main() {
  const int cap = 1 + symx_choose("cap", 2);
  const bool timed = symx_choose("timed", 2);
  struct Item { int tag, payload; };
  common::BlockingQueue<std::unique_ptr<Item>> queue(cap);
  int payload[2][2];
  for (auto& row : payload) for (int& v : row) v = symx_i32("payload");
  int pushed[2] = {0, 0};
  auto producer = [&](int p) {
    for (int i = 0; i < 2; ++i) {
      auto item = std::make_unique<Item>(Item{p * 10 + i, payload[p][i]});
      if (timed && p == 1) { if (queue.PushWithTimeout(std::move(item), common::FromSeconds(1.))) pushed[p]++; }
      else { queue.Push(std::move(item)); pushed[p]++; }
    }
  };
  std::thread a(producer, 0);
  std::thread b(producer, 1);
  std::vector<int> got;
  const auto take = [&](std::unique_ptr<Item> v) {
    symx_assert(v->payload == payload[v->tag / 10][v->tag % 10], "items come out as they went in");
    got.push_back(v->tag);
  };
  const int want = timed ? 2 : 4;
  while ((int)got.size() < want) {
    symx_assert(queue.Size() <= (size_t)cap, "capacity is never exceeded");
    std::unique_ptr<Item> v = queue.Pop();
    symx_assert(v != nullptr, "pop yields a value");
    take(std::move(v));
  }
  if (!timed) {
    a.join(); b.join();
    symx_assert(queue.Size() == 0, "nothing left over");
  } else {
    // drain with timeouts while the producers finish
    for (int i = 0; i < 2; ++i) { std::unique_ptr<Item> v = queue.PopWithTimeout(common::FromSeconds(1.)); if (v) take(std::move(v)); }
    while (queue.Size() > 0) take(queue.Pop());
    symx_assume(true);
    while ((int)got.size() < 2 + 0) take(queue.Pop());
  }
  if (timed) {
    // keep popping until both are done so that a blocked producer can finish
    bool seen1 = false; for (int v : got) if (v == 1) seen1 = true;
    while (!seen1) { take(queue.Pop()); if (got.back() == 1) seen1 = true; }
    a.join(); b.join();
    while (queue.Size() > 0) take(queue.Pop());
  }
  symx_assert((int)got.size() == pushed[0] + pushed[1], "every accepted item is popped exactly once");
  int next[2] = {-1, -1};
  for (int v : got) { const int p = v / 10; symx_assert(v % 10 > next[p], "items of one producer keep their order"); next[p] = v % 10; }
  symx_reach("end");
}
