// Virtual clocks: the executable's definitions of now() take precedence over
// the ones in libstdc++.so, so every user of the standard clocks (the headers
// under test included) reads these.  No hook in the code under test is needed.
#pragma once
#include <chrono>
#ifdef THREADED   // each thread its own world
#define TL thread_local
#else
#define TL
#endif
namespace vclock {
TL long long steady_ns = 1000000000000000LL;
TL long long system_ns = 1500000000000000000LL;
TL bool inside = false;          // library code is running
TL long long pending_ns = 0;     // time that passes while it runs ...
TL int readings = 0;             // ... after so many readings of the clock
inline void arrive() { steady_ns += pending_ns; pending_ns = 0; }
inline void pass(long long ns, int n) { pending_ns = ns; readings = n; }
inline void read() { if (inside && pending_ns && readings-- == 0) arrive(); }
}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  vclock::read();
  return time_point(duration(vclock::steady_ns));
}
system_clock::time_point system_clock::now() noexcept {
  return time_point(duration(vclock::system_ns));
}
}}}
