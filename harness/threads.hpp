// Running a script, or dealing its episodes out to threads that run them at the
// same time, each with a world, a clock and a recording of its own.
#pragma once
#include "vclock.hpp"
#include <bits/stdc++.h>

template <typename F>
int in_threads(std::istream& in, const char* path, volatile long* progress, int threads, F perform) {
  if (threads <= 1) {
    FILE* out = fopen(path, "w");
    if (!out) return 2;
    setvbuf(out, nullptr, _IOFBF, 1 << 16);
    return perform(in, out, progress);
  }
#ifdef THREADED
  std::vector<std::string> parts(threads);
  std::string line;
  for (int n = -1; std::getline(in, line);) {
    if (line[0] == 'E' && line[1] == ' ') ++n;
    parts[std::max(n, 0) % threads] += line + "\n";
  }
  std::atomic<int> ready{0}, wrong{0};
  std::vector<std::thread> crew;
  for (int t = 0; t < threads; ++t) crew.emplace_back([&, t] {
    std::istringstream mine(parts[t]);
    FILE* out = fopen((std::string(path) + "." + std::to_string(t)).c_str(), "w");
    if (!out) { wrong = 2; return; }
    setvbuf(out, nullptr, _IOFBF, 1 << 16);
    ++ready;
    while (ready < threads && !wrong) std::this_thread::yield();
    if (int r = perform(mine, out, progress + 2 * (t + 1))) wrong = r;
  });
  for (auto& t : crew) t.join();
  progress[1] = 1;
  return wrong;
#else
  return 2;
#endif
}
