// Operations done by different threads, one after another: RELAY.
#pragma once
#include <string>
#ifdef RELAY
#include <condition_variable>
#include <functional>
#include <mutex>
#include <thread>

namespace relay {
class Runner {
 public:
  Runner() : thread([this] { work(); }) {}
  ~Runner() {
    give([this] { over = true; });
    thread.join();
  }
  // Has it done, and waits until it is.
  void give(std::function<void()> f) {
    std::unique_lock<std::mutex> lock(mutex);
    job = std::move(f);
    changed.notify_all();
    changed.wait(lock, [this] { return !job; });
  }

 private:
  void work() {
    std::unique_lock<std::mutex> lock(mutex);
    while (!over) {
      changed.wait(lock, [this] { return bool(job); });
      job();
      job = nullptr;
      changed.notify_all();
    }
  }
  bool over = false;
  std::mutex mutex;
  std::condition_variable changed;
  std::function<void()> job;
  std::thread thread;
};

// Whose turn it is, sometimes the same one's as before, depends on what is to
// be done and not on what comes before it in the script.
template <typename F>
void turn(const std::string& line, F f) {
  static Runner runners[3];
  unsigned long x = 14695981039346656037UL;
  for (unsigned char c : line) x = (x ^ c) * 1099511628211UL;
  x *= 0x9e3779b97f4a7c15UL;
  runners[(x >> 40) % 3].give(f);
}
}  // namespace relay
#else
namespace relay {
template <typename F>
void turn(const std::string&, F f) { f(); }
}  // namespace relay
#endif
