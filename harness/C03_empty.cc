//@ mt preempt=3,4 time=60,300 parts=cap:3
//# Waiting for the queue to become empty returns exactly once everything put in before was taken out, under every schedule within the preemption bound.
//b 2 items, 1 consumer thread, capacity unlimited, 1 or 2, <=3 preemptions (thorough 4)
//s absl::Mutex modelled with its blocking semantics; AwaitWithTimeout may time out at any point where its predicate is false
#include "symx.h"
#include "cartographer/common/internal/blocking_queue.h"
#include <memory>
#include <thread>
using namespace cartographer;
extern "C" void symx_main() {
  const int cap = symx_choose("cap", 3);
  common::BlockingQueue<std::unique_ptr<int>> queue(cap);
  int sum = 0;
  std::thread consumer([&] { for (int i = 0; i < 2; ++i) { auto v = queue.Pop(); symx_assert(*v == i + 1, "items come out in order"); } });
  queue.Push(std::make_unique<int>(1));
  queue.Push(std::make_unique<int>(2));
  queue.WaitUntilEmpty();
  symx_assert(queue.Size() == 0, "waiting ends when the queue is empty");
  consumer.join();
  queue.WaitUntilEmpty();
  symx_assert(queue.Size() == 0, "an empty queue needs no waiting");
  symx_observe("sum", sum);
  symx_reach("end");
}
