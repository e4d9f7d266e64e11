// Counts the work the real templates do: the basic blocks the compiler's
// coverage instrumentation sees executed, and the memory asked for, while code
// of the library (and of the standard library's templates below it) runs.
// The counts are deterministic.
//
//   cost_driver SCRIPT OUT PROGRESS
//
// Each line of a script is a batch of `n` calls of an operation (see op_* and
// spec/Cost.tla); what is recorded is the batch's total and largest work.
#include "vclock.hpp"

#include "lru/lru.hpp"

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

using std::string;
using std::vector;

#define UNCOUNTED __attribute__((no_sanitize_coverage))

static volatile long long work = 0;   // changed behind the optimiser's back
extern "C" UNCOUNTED void __sanitizer_cov_trace_pc() { work = work + 1; }
UNCOUNTED void* operator new(size_t n) {
  work = work + static_cast<long long>(n / 64);
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
UNCOUNTED void operator delete(void* p) noexcept { free(p); }
UNCOUNTED void operator delete(void* p, size_t) noexcept { free(p); }

struct Batch {
  long long total = 0, most = 0;
  template <typename F>
  UNCOUNTED void operator()(F f) {
    const long long before = work;
    f();
    const long long spent = work - before;
    total += spent;
    most = std::max(most, spent);
  }
};

static const std::chrono::milliseconds lifetime(1000);
template <typename K, typename V, typename C> struct Make {
  static C* make(size_t cap) { return new C(cap); }
};
template <typename K, typename V> struct Make<K, V, LRU::TimedCache<K, V>> {
  static LRU::TimedCache<K, V>* make(size_t cap) { return new LRU::TimedCache<K, V>(lifetime, cap); }
};
template <typename K> struct Of;
template <> struct Of<int> { static int make(long i) { return static_cast<int>(i); } };
template <> struct Of<string> { static string make(long i) { return "key number " + std::to_string(i); } };

struct Subject {
  virtual ~Subject() = default;
  virtual bool run(const string& op, long n, Batch& b) = 0;
  virtual long size() = 0;
};

template <typename K, typename V, typename C>
struct Caches : Subject {
  std::unique_ptr<C> c, d;
  long next = 0;                // keys made so far
  unsigned long long seed = 7;
  long chance(long n) { seed = seed * 6364136223846793005ULL + 1442695040888963407ULL; return n < 1 ? 0 : long((seed >> 33) % n); }
  K key(long i) { return Of<K>::make(i); }
  K some() {     // a key that is likely to be there
    const long n = std::min(next, long(c->size()) + 2);
    return key(next - 1 - chance(n));
  }
  K present() {  // a key that is there
    for (int i = 0; i < 60; ++i) { K k = some(); if (has(k)) return k; }
    return c->size() ? K((*c->ordered_begin()).key()) : key(0);
  }
  bool has(const K& k) { return c->unordered_end() != c->find(k); }
  long size() override { return c ? long(c->size()) : 0; }

  bool run(const string& op, long n, Batch& b) override {
    if (op == "new") { c.reset(Make<K, V, C>::make(n)); next = 0; return true; }
    C& x = *c;
    const C& y = x;
    volatile bool sink = false;
    auto times = [&](auto f) { for (long i = 0; i < n; ++i) f(i); };
    if (op == "ins") times([&](long i) {
      const K k = key(next++);
      const V v = V();
      switch (i % 3) {
        case 0: b([&] { x.insert(k, v); }); break;
        case 1: b([&] { x.emplace(k, v); }); break;
        default: b([&] { x.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v)); });
      }
    });
    else if (op == "upd") times([&](long i) {
      if (x.is_empty()) return;
      const K k = present();
      const V v = V();
      if (i % 2) b([&] { x.insert(k, v); }); else b([&] { x.emplace(k, v); });
    });
    else if (op == "get") times([&](long i) {
      const K k = i % 3 ? some() : key(-5 - i);
      switch (i % 6) {
        case 0: b([&] { sink = x.contains(k); }); break;
        case 1: b([&] { sink = x.find(k) == x.end(); }); break;
        case 2: b([&] { sink = y.find(k) == y.end(); }); break;
        case 3: b([&] { sink = y.contains(k); }); break;
        case 4: if (has(k)) b([&] { x.lookup(k); x[k]; }); break;
        default: if (has(k)) b([&] { y.lookup(k); y[k]; });
      }
    });
    else if (op == "same") {   // the entry used last, and the two used last in turn
      if (x.is_empty()) return true;
      const K k = present(), l = present();
      times([&](long i) { b([&] { sink = x.contains(i % 4 == 3 ? l : k); }); });
    }
    else if (op == "era") times([&](long i) {
      if (x.is_empty()) return;
      const K k = i % 4 ? present() : key(-3);
      b([&] { x.erase(k); });
    });
    else if (op == "erai") times([&](long i) {
      if (x.is_empty()) return;
      const K k = present();
      switch (i % 5) {
        case 0: { auto it = x.find(k); b([&] { x.erase(it); }); break; }
        case 1: { auto it = x.ordered_begin(); b([&] { x.erase(it); }); break; }
        case 2: { auto it = x.ordered_end(); --it; b([&] { x.erase(it); }); break; }
        case 3: { auto it = y.find(k); b([&] { x.erase(it); }); break; }
        default: { auto it = x.unordered_begin(); b([&] { x.erase(it); }); }
      }
    });
    else if (op == "churn") {   // some in, as many out
      long depth = 0;
      for (long i = 0; i < n; i += depth) {
        depth = std::min(n - i, 1 + chance(5));
        for (long j = 0; j < depth; ++j) {
          const K k = key(next++);
          b([&] { x.insert(k, V()); });
        }
        for (long j = 0; j < depth && !x.is_empty(); ++j) {
          if (j % 2) { const K k = key(next - 1 - j); b([&] { x.erase(k); }); }
          else { auto it = x.ordered_begin(); b([&] { x.erase(it); }); }
        }
      }
    }
    else if (op == "shr") b([&] { x.shrink(std::max(0L, long(x.size()) - n)); });
    else if (op == "cap") b([&] { x.capacity(n); });
    else if (op == "capd") b([&] { x.capacity(std::max(0L, long(x.size()) - n)); });
    else if (op == "walk") {
      auto o = x.ordered_begin();
      auto u = x.unordered_begin();
      auto q = y.ordered_begin();
      times([&](long) {
        if (o == x.ordered_end()) return;
        b([&] { sink = o->key() == (*o).key(); ++o; });
        b([&] { sink = u->key() == (*u).key(); ++u; });
        b([&] { ++q; --q; q++; });
      });
      auto r = x.ordered_end();
      times([&](long) { if (r != x.ordered_begin()) b([&] { --r; sink = r->key() == (*r).key(); }); });
    }
    else if (op == "conv") times([&](long) {
      if (x.is_empty()) return;
      auto u = x.find(present());
      if (u == x.end()) return;
      b([&] {
        typename C::OrderedIterator o(u);
        typename C::OrderedConstIterator oc(o);
        typename C::UnorderedConstIterator uc(u);
        sink = oc == uc;
        sink = u == o;
        sink = x.is_valid(u) && x.is_valid(o) && y.is_valid(oc);
        auto p = o;
        swap(p, o);
      });
    });
    else if (op == "look") times([&](long) {
      b([&] {
        sink = x.size() + x.capacity() + x.space_left();
        sink = x.is_empty() || x.is_full();
        x.ordered_begin(), x.ordered_end(), x.unordered_begin(), x.unordered_end(), y.ordered_cbegin(), y.begin();
        sink = x.is_monitoring();
      });
      look(y, b, 0);
    });
    else if (op == "insr") {
      vector<std::pair<K, V>> v;
      for (long i = 0; i < n; ++i) v.emplace_back(i % 3 || !next ? key(next++) : some(), V());
      if (n % 2) b([&] { x.insert(v); }); else b([&] { x.insert(v.begin(), v.end()); });
    }
    else if (op == "swap") {
      d.reset(Make<K, V, C>::make(3));
      d->insert(key(-1), V());
      b([&] { x.swap(*d); });
      b([&] { swap(x, *d); });
      b([&] { C z(std::move(x)); x = std::move(z); });
      d.reset();
    }
    else if (op == "copy") {
      b([&] { d.reset(new C(y)); });
      b([&] { sink = x == *d; sink = x != *d; });
      b([&] { *d = y; });
      b([&] { d.reset(); });
    }
    else if (op == "clr") b([&] { x.clear(); });
    else if (op == "tour") b([&] {
      for (const auto& p : x) sink = &p.key() == nullptr;
      for (auto i = y.ordered_begin(); i != y.ordered_end(); ++i) sink = &(*i).key() == nullptr;
    });
    else if (op == "exp") expiry(x, b, n, 0);
    else if (op == "tick") vclock::steady_ns += n * 1000000LL;
    else if (op == "mon") {
      vector<K> ks;
      for (long i = 0; i < n; ++i) ks.push_back(key(next - 1 - i));
      x.monitor(ks);
    }
    else if (op == "stats") times([&](long i) {
      if (!x.is_monitoring()) return;
      const K k = key(next - 1 - chance(n + n / 4)), l = key(1000000000 + i);
      auto& s = x.stats();
      if (i % 2) b([&] { sink = s.is_monitoring(k) && s.hits_for(k) + s.misses_for(k); });
      else b([&] { s.monitor(l); sink = s[l].hits; s.reset_key(l); s.unmonitor(l); });
    });
    else if (op == "cb") {
      x.hit_callback([](auto&, auto&) {});
      x.miss_callback([](auto&) {});
      x.access_callback([](auto&, bool) {});
    }
    else return false;
    return true;
  }

  template <typename X>
  auto look(const X& y, Batch& b, int) -> decltype(void(y.front())) {
    if (!y.is_empty()) b([&] { y.front(), y.back(); });
  }
  template <typename X> void look(const X&, Batch&, long) {}
  template <typename X>
  auto expiry(X& x, Batch& b, long n, int) -> decltype(void(x.clear_expired())) {
    volatile bool sink = false;
    const X& y = x;
    if (n == 0) { b([&] { sink = y.all_expired(); }); b([&] { x.clear_expired(); }); return; }
    for (long i = 0; i < n; ++i) {
      const K k = some();
      b([&] { sink = y.has_expired(k); });
      auto it = y.ordered_begin();
      if (it != y.ordered_end()) b([&] { sink = y.has_expired(it); });
    }
  }
  template <typename X> void expiry(X&, Batch&, long, long) {}
};

// A wrapped function: ins asks for new arguments, get for known ones.
template <typename W>
struct Calls : Subject {
  std::function<W(long)> make;
  std::unique_ptr<W> w;
  long next = 0, cap = 0;
  Calls(std::function<W(long)> m) : make(m) {}
  long size() override { return std::min(next, cap); }
  bool run(const string& op, long n, Batch& b) override {
    if (op == "new") { w.reset(new W(make(n))); next = 0; cap = n; return true; }
    if (op == "ins") for (long i = 0; i < n; ++i) { const int k = int(next++); b([&] { (*w)(k); }); }
    else if (op == "get") for (long i = 0; i < n && size(); ++i) {
      const int k = int(next - 1 - i % size());
      b([&] { (*w)(k); });
    }
    else return false;
    return true;
  }
};

static std::unique_ptr<Subject> subject(int variant) {
  auto twice = [](int k) { return 2 * k; };
  auto plain = [twice](long n) { return LRU::wrap(twice, size_t(n)); };
  auto timed = [twice](long n) { return LRU::timed_wrap(twice, lifetime, size_t(n)); };
  switch (variant) {
    case 0: return std::unique_ptr<Subject>(new Caches<int, int, LRU::Cache<int, int>>());
    case 1: return std::unique_ptr<Subject>(new Caches<string, string, LRU::Cache<string, string>>());
    case 2: return std::unique_ptr<Subject>(new Caches<int, string, LRU::TimedCache<int, string>>());
    case 3: return std::unique_ptr<Subject>(new Caches<string, int, LRU::TimedCache<string, int>>());
    case 4: return std::unique_ptr<Subject>(new Calls<decltype(plain(1))>(plain));
    case 5: return std::unique_ptr<Subject>(new Calls<decltype(timed(1))>(timed));
    default: _exit(3);
  }
}

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  std::ifstream in(argv[1]);
  FILE* out = fopen(argv[2], "w");
  int fd = open(argv[3], O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (!in || !out || fd < 0 || ftruncate(fd, 4096)) return 2;
  auto* progress = static_cast<volatile long*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  string line, op;
  long number = 0, n = 0;
  std::unique_ptr<Subject> s;
  while (std::getline(in, line)) {
    progress[0] = ++number;
    std::istringstream ss(line);
    if (!(ss >> op)) continue;
    if (op == "E") {
      long id;
      int variant;
      ss >> id >> variant;
      s = subject(variant);
      fprintf(out, "E %ld\n", id);
      continue;
    }
    ss >> n;
    Batch b;
    if (!s || !s->run(op, n, b)) _exit(3);
    fprintf(out, "{\"op\":\"%s\",\"n\":%ld,\"tot\":%lld,\"most\":%lld,\"size\":%ld}\n", op.c_str(), n,
            std::min(b.total, 2000000000LL), std::min(b.most, 2000000000LL), s->size());
  }
  s.reset();
  fclose(out);
  progress[1] = 1;
  return 0;
}
