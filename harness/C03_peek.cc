//@ time=60,300
//# Sequential semantics of the queue against a FIFO model for every operation sequence.
//b 5 operations (thorough 7) of push/pop/peek/size with timeouts, capacity 0 (unbounded), 1 or 2
#include "symx.h"
#include "cartographer/common/internal/blocking_queue.h"
#include <memory>
#include <deque>
using namespace cartographer;
extern "C" void symx_main() {
  const int cap = symx_choose("cap", 3);
  common::BlockingQueue<std::unique_ptr<int>> queue(cap);
  std::deque<int> model;
  for (int step = 0; step < (TIER ? 7 : 5); ++step) {
    const bool full = cap && (int)model.size() >= cap;
    switch (symx_choose("op", 4)) {
      case 0: {
        const int v = symx_i32("v");
        if (full) symx_assert(!queue.PushWithTimeout(std::make_unique<int>(v), common::FromMilliseconds(1)), "push into a full queue times out");
        else if (symx_choose("t", 2)) { symx_assert(queue.PushWithTimeout(std::make_unique<int>(v), common::FromMilliseconds(1)), "push with room succeeds"); model.push_back(v); }
        else { queue.Push(std::make_unique<int>(v)); model.push_back(v); }
        break;
      }
      case 1: {
        if (model.empty()) { symx_assert(queue.PopWithTimeout(common::FromMilliseconds(1)) == nullptr, "pop from an empty queue times out"); break; }
        auto v = symx_choose("t", 2) ? queue.PopWithTimeout(common::FromMilliseconds(1)) : queue.Pop();
        symx_assert(v && *v == model.front(), "pop returns the oldest item");
        model.pop_front();
        break;
      }
      case 2: {
        const int* p = queue.Peek<int>();
        symx_assert(model.empty() ? p == nullptr : (p && *p == model.front()), "peek shows the oldest item");
        int* q = queue.PeekWithTimeout<int>(common::FromMilliseconds(1));
        symx_assert(model.empty() ? q == nullptr : (q && *q == model.front()), "timed peek shows the oldest item");
        break;
      }
      default: if (model.empty()) queue.WaitUntilEmpty(); break;
    }
    symx_assert(queue.Size() == model.size(), "size counts the queued items");
  }
  symx_reach("end");
}
