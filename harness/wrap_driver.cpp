// Executes scripts of calls on real wrapped functions and records every
// result and every evaluation of the functions wrapped.
//
//   wrap_driver SCRIPT OUT PROGRESS
//
//   mk h kind form cap ttl [base]     cap -1: not given; ttl -1: wrap, else ticks
//                                     base: the wrapper of base, called with other types
//   call h k thr val dur form
//   rm h    tick n    sysj n
#include "vclock.hpp"
#include "relay.hpp"
#include "threads.hpp"

#include "lru/lru.hpp"

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

using std::string;
using std::vector;

struct Boom {};

static TL long long tick_ns = 1000000;
static TL int thr, val, dur;
static TL vector<int> evaluations;
static TL bool modified;

static int evaluate(int k) {
  evaluations.push_back(k);
  vclock::steady_ns += dur * tick_ns;
  if (k == thr) throw Boom();
  return val + k;
}

struct Wrapper {
  virtual ~Wrapper() = default;
  virtual int call(int k, int form) = 0;
};
static const int NWRAP = 4;
static TL std::unique_ptr<Wrapper> wrapper[NWRAP + 1];

// ---------------------------------------------------------------- functions
struct Unary { int id; int operator()(int k) const { return evaluate(k); } };
struct Binary { int operator()(int a, int b) const { return evaluate(a * 16 + b); } };
struct Nullary { int operator()() const { return evaluate(0); } };
struct Recursive {
  int h;
  int operator()(int k) const {
    evaluations.push_back(k);
    vclock::steady_ns += dur * tick_ns;
    if (k > 0) wrapper[h]->call(k - 1, 0);
    if (k == thr) throw Boom();
    return val + k;
  }
};
struct ByString { int operator()(const string& s) const { return evaluate(atoi(s.c_str() + 1)); } };
struct Taking { int operator()(string s) const { return evaluate(atoi(s.c_str() + 1)); } };
static int pointed(int k) { return evaluate(k); }
struct Many {
  int calls = 0;
  long operator()(int a, string s, char c) { ++calls; return evaluate(a * 16 + (s[0] - 'a') * 4 + (c - '0')); }
};
struct Text {  // a value without default constructor or assignment
  explicit Text(int n) : text(std::to_string(n)) {}
  Text(const Text&) = default;
  friend bool operator==(const Text& a, const Text& b) { return a.text == b.text; }
  friend bool operator!=(const Text& a, const Text& b) { return a.text != b.text; }
  string text;
};
struct Wordy { Text operator()(unsigned long k) const { return Text(evaluate(static_cast<int>(k))); } };

// Arguments that differ only in their upper half, only in their sign, or only
// in their fractions, and results that need all of their width.
static const long long upper = 1LL << 32;
static long long wide(int k) { return (k % 2 ? -1 : 1) * ((k / 2 + 1) * upper + 7); }
static double fraction(int k) { return (k % 2 ? -1 : 1) * (k / 2 + 1) / 64.0; }
struct Wide {
  long long operator()(long long x) const {
    const int k = static_cast<int>((std::llabs(x) - 7) / upper - 1) * 2 + (x < 0);
    return evaluate(k) * upper + 3;
  }
};
struct Fraction {
  double operator()(double x) const { return evaluate(static_cast<int>(std::fabs(x) * 64 - 1) * 2 + (x < 0)) + 0.25; }
};
struct Mixed {
  unsigned long operator()(bool a, float b, unsigned char c, long long d) const {
    return 5 * upper + evaluate(a + 2 * static_cast<int>(b * 4) + 4 * (c - 200) + 8 * static_cast<int>(d / upper));
  }
};

// One function for arguments of many types and numbers.
struct Generic {
  static int number(int k) { return k; }
  static int number(long k) { return static_cast<int>(-k - 1); }
  static int number(const string& s) { return atoi(s.c_str() + 1); }
  template <typename X>
  int operator()(const X& x) const { return evaluate(number(x)); }
  int operator()(int a, int b) const { return evaluate(a * 16 + b); }
  int operator()(int a, char b) const { return evaluate((b - 'a') * 16 + a); }
};

// ---------------------------------------------------------------- wrappers
template <typename F, typename Caller>
struct Impl : Wrapper {
  F f;
  Caller c;
  Impl(F f, Caller c) : f(std::move(f)), c(c) {}
  int call(int k, int form) override { return c(f, k, form); }
};
template <typename F, typename Caller>
static std::unique_ptr<Wrapper> impl(F f, Caller c) {
  return std::unique_ptr<Wrapper>(new Impl<F, Caller>(std::move(f), c));
}

template <typename Function, typename Caller>
static std::unique_ptr<Wrapper> wrapped(Function f, Caller c, int form, int cap, int ttl) {
  using Milli = std::chrono::duration<double, std::milli>;
  if (ttl < 0) {
    if (cap < 0) return impl(LRU::wrap(f), c);
    switch (form % 4) {
      case 0: return impl(LRU::wrap(f, cap), c);
      case 1: {  // the arguments need not outlive the call
        std::unique_ptr<std::size_t> n(new std::size_t(cap));
        auto w = LRU::wrap(std::move(f), *n);
        *n = 77;
        return impl(std::move(w), c);
      }
      case 2: { const short n = static_cast<short>(cap); return impl(LRU::wrap(f, n), c); }
      default: { auto w = LRU::wrap(f, static_cast<std::size_t>(cap)); auto v = w; return impl(std::move(v), c); }
    }
  }
  std::chrono::nanoseconds ns(ttl * tick_ns);
  if (cap < 0) {
    if (form % 2) return impl(LRU::timed_wrap(f, Milli(ns)), c);
    return impl(LRU::timed_wrap(f, ns), c);
  }
  switch (form % 4) {
    case 0: return impl(LRU::timed_wrap(f, Milli(ns), cap), c);
    case 1: {
      std::unique_ptr<std::chrono::nanoseconds> t(new std::chrono::nanoseconds(ns));
      std::unique_ptr<int> n(new int(cap));
      auto w = LRU::timed_wrap(std::move(f), *t, *n);
      *t = std::chrono::nanoseconds(1);
      *n = 77;
      return impl(std::move(w), c);
    }
    case 2:
      if (ns.count() % 1000 == 0) {
        const auto us = std::chrono::duration_cast<std::chrono::microseconds>(ns);
        return impl(LRU::timed_wrap(f, us, static_cast<std::size_t>(cap)), c);
      }
      return impl(LRU::timed_wrap(f, ns, static_cast<std::size_t>(cap)), c);
    default: return impl(LRU::wrap<Function, LRU::TimedCache>(f, Milli(ns), cap), c);
  }
}

static const auto with_int = [](auto& f, int k, int form) -> int {
  switch (form % 4) {
    case 0: return f(int(k));
    case 1: { int x = k; int r = f(x); modified |= x != k; return r; }
    case 2: { const int x = k; return f(x); }
    default: { int x = k; return f(std::move(x)); }
  }
};
static const auto with_string = [](auto& f, int k, int form) -> int {
  string s = "a" + std::to_string(k) + "0123456789012345678901234567890123456789";
  s.resize(s.size() - 40 + (k % 2 ? 40 : 0));
  if (k % 2) s[1 + std::to_string(k).size()] = '_';
  const string keep = s;
  switch (form % 3) {
    case 0: { int r = f(s); modified |= s != keep; return r; }
    case 1: { int r = f(keep); modified |= s != keep; return r; }
    default: return f(std::move(s));
  }
};
static const auto with_two = [](auto& f, int k, int form) -> int {
  int a = k / 16, b = k % 16;
  switch (form % 3) {
    case 0: return f(int(a), int(b));
    case 1: return f(a, b);
    default: { const int x = a; return f(x, int(b)); }
  }
};
static const auto with_none = [](auto& f, int, int) -> int { return f(); };
static const auto with_many = [](auto& f, int k, int form) -> int {
  int a = k / 16;
  string s(1, static_cast<char>('a' + k / 4 % 4));
  char c = static_cast<char>('0' + k % 4);
  return static_cast<int>(form % 2 ? f(a, s, c) : f(int(a), string(s), char(c)));
};
static const auto with_word = [](auto& f, int k, int form) -> int {
  unsigned long x = static_cast<unsigned long>(k);
  const Text t = form % 2 ? f(x) : f(static_cast<unsigned long>(k));
  return atoi(t.text.c_str());
};

static const auto with_wide = [](auto& f, int k, int form) -> int {
  long long x = wide(k);
  const long long y = form % 2 ? f(x) : f(wide(k));
  modified |= x != wide(k) || y % upper != 3;
  return static_cast<int>(y / upper);
};
static const auto with_fraction = [](auto& f, int k, int form) -> int {
  double x = fraction(k);
  const double y = form % 2 ? f(x) : f(fraction(k));
  const int n = static_cast<int>(y);
  modified |= x != fraction(k) || y - n != 0.25;
  return n;
};
static const auto with_mixed = [](auto& f, int k, int form) -> int {
  bool a = k & 1;
  float b = (k >> 1 & 1) / 4.0f;
  unsigned char c = static_cast<unsigned char>(200 + (k >> 2 & 1));
  long long d = (k >> 3) * upper;
  const unsigned long y = form % 2 ? f(a, b, c, d) : f(bool(a), float(b), static_cast<unsigned char>(c), d + 0);
  modified |= y / upper != 5;
  return static_cast<int>(y % upper);
};

// The wrapper of a generic function, and it with the type it is called with.
struct Shared : Wrapper {
  std::shared_ptr<Wrapper> all;
  int type;
  Shared(std::shared_ptr<Wrapper> all, int type) : all(std::move(all)), type(type) {}
  int call(int k, int form) override { return all->call(k, form % 12 + 12 * type); }
};
static const auto with_any = [](auto& f, int k, int form) -> int {
  const bool lvalue = form % 2;
  switch (form / 12) {
    case 0: return with_int(f, k, form);
    case 1: { long x = -k - 1; return lvalue ? f(x) : f(-k - 1L); }
    case 2: return with_string(f, k, form);
    case 3: return with_two(f, k, form);
    default: { char x = static_cast<char>('a' + k / 16); const int y = k % 16; return lvalue ? f(y, x) : f(k % 16, char(x)); }
  }
};

static void make(int h, int kind, int form, int cap, int ttl, int base) {
  auto& w = wrapper[h];
  if (kind >= 14 && kind <= 18) {
    auto* other = base ? dynamic_cast<Shared*>(wrapper[base].get()) : nullptr;
    std::shared_ptr<Wrapper> all = other ? other->all : std::shared_ptr<Wrapper>(wrapped(Generic(), with_any, form, cap, ttl));
    w.reset(new Shared(std::move(all), kind - 14));
    return;
  }
  switch (kind) {
    case 0: w = wrapped(Unary{h}, with_int, form, cap, ttl); break;
    case 1: w = wrapped(Binary(), with_two, form, cap, ttl); break;
    case 2: w = wrapped(Nullary(), with_none, form, cap, ttl); break;
    case 3: w = wrapped(Recursive{h}, with_int, form, cap, ttl); break;
    case 4: w = wrapped(ByString(), with_string, form, cap, ttl); break;
    case 5: w = wrapped(&pointed, with_int, form, cap, ttl); break;
    case 6: w = wrapped(Many(), with_many, form, cap, ttl); break;
    case 7: w = wrapped(Wordy(), with_word, form, cap, ttl); break;
    case 8: w = wrapped([h](int k) mutable { return evaluate(k); }, with_int, form, cap, ttl); break;
    case 9: w = wrapped(std::function<int(int)>(Unary{h}), with_int, form, cap, ttl); break;
    case 10: w = wrapped(Taking(), with_string, form, cap, ttl); break;
    case 11: w = wrapped(Wide(), with_wide, form, cap, ttl); break;
    case 12: w = wrapped(Fraction(), with_fraction, form, cap, ttl); break;
    case 13: w = wrapped(Mixed(), with_mixed, form, cap, ttl); break;
    default: _exit(3);
  }
}

static int perform(std::istream& in, FILE* out, volatile long* progress) {
  string line;
  long number = 0;
  auto reset = [] {
    for (auto& w : wrapper) w.reset();
    vclock::steady_ns = 1000000000000000LL;
    vclock::system_ns = 1500000000000000000LL;
  };
  while (std::getline(in, line)) {
    progress[0] = ++number;
    std::istringstream ss(line);
    string op, x;
    ss >> op;
    if (op.empty()) continue;
    if (op == "E") {
      long id;
      ss >> id >> tick_ns;
      reset();
      fprintf(out, "E %ld\n", id);
      continue;
    }
    vector<int> a;
    int v, n = 0;
    while (ss >> v) a.push_back(v);
    a.resize(6);
    evaluations.clear();
    modified = false;
    thr = -1;
    if ((op == "mk" || op == "call" || op == "rm") && (a[0] < 1 || a[0] > NWRAP)) _exit(3);
    if ((op == "call" || op == "rm") && !wrapper[a[0]]) continue;
    if (op == "mk") relay::turn(line, [&] { make(a[0], a[1], a[2], a[3], a[4], a[5] > 0 && a[5] <= NWRAP ? a[5] : 0); });
    else if (op == "rm") wrapper[a[0]].reset();
    else if (op == "tick") vclock::steady_ns += a[0] * tick_ns;
    else if (op == "sysj") vclock::system_ns += a[0] * 1000000000LL;
    else if (op == "call") {
      thr = a[2]; val = a[3]; dur = a[4];
      relay::turn(line, [&] {
        try { n = wrapper[a[0]]->call(a[1], a[5]); }
        catch (const Boom&) { x = "Thrown"; }
        catch (const std::exception& e) { x = string("std:") + e.what(); }
      });
    } else _exit(3);
    fprintf(out, "{\"op\":\"%s\",\"a\":[%d,%d,%d,%d,%d,%d],\"x\":\"%s\",\"n\":%d,\"mod\":%d,\"r\":[", op.c_str(),
            a[0], a[1], a[2], a[3], a[4], a[5], x.c_str(), n, int(modified));
    for (size_t i = 0; i < evaluations.size(); ++i) fprintf(out, "%s%d", i ? "," : "", evaluations[i]);
    fprintf(out, "]}\n");
  }
  reset();
  fclose(out);
  progress[1] = 1;
  return 0;
}

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  std::ifstream in(argv[1]);
  int fd = open(argv[3], O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (!in || fd < 0 || ftruncate(fd, 4096)) return 2;
  auto* progress = static_cast<volatile long*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  return in_threads(in, argv[2], progress, argc > 4 ? atoi(argv[4]) : 1, perform);
}
