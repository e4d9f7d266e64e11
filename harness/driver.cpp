// Conformance driver: executes operation scripts on the real caches of the
// tree under test and records, per operation, its result, the callbacks it
// fired and a full projection of the state, using the public API only.
//
//   driver SCRIPT OUT PROGRESS      compiled with -DVARIANT=...
//
// One JSON object per operation goes to OUT; PROGRESS holds the number of the
// script line being executed (for crash attribution).
#include "vclock.hpp"
#include "relay.hpp"
#include "threads.hpp"

#include "lru/lru.hpp"

#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <new>

using std::size_t;
using std::string;
using std::vector;

// ---------------------------------------------------------------- faults
namespace fault {
struct Fault {};
TL int copies_left = 0;   // >0: the n-th copy/move of a key or value throws
TL int allocs_left = 0;   // >0: the n-th allocation throws
TL bool armed = false;    // only while library code runs
TL bool fired = false;
TL long cost = 0;         // hashes, comparisons, copies and allocations of library code
TL long hashes = 0;       // hashes alone
inline void count() { if (armed) ++cost; }
inline void hash() { count(); if (armed) ++hashes; }
inline void copy_point() {
  count();
  if (armed && copies_left > 0 && --copies_left == 0) { fired = true; throw Fault(); }
}
}
#if VARIANT == 3 || VARIANT == 7
static void* fallible(size_t n) {
  fault::count();
  if (fault::armed && fault::allocs_left > 0 && --fault::allocs_left == 0) {
    fault::fired = true;
    throw std::bad_alloc();
  }
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return fallible(n); }
void* operator new[](size_t n) { return fallible(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif

// ---------------------------------------------------------------- types
static long live_keys = 0, live_vals = 0, bad_objects = 0;

// A counted object that knows whether it is alive.
template <long* Counter>
struct Counted {
  const void* self;
  int* heap;  // makes a double destruction or use after free visible to ASan
  Counted() : self(this), heap(static_cast<int*>(malloc(sizeof(int)))) { *heap = 1; ++*Counter; }
  Counted(const Counted& o) : Counted() { o.check(); }
  ~Counted() { check(); free(heap); self = nullptr; --*Counter; }
  Counted& operator=(const Counted& o) { check(); o.check(); return *this; }
  void check() const { if (self != this || *heap != 1) ++bad_objects; }
};

struct TKey {
  int raw;
  Counted<&live_keys> c;
  explicit TKey(int r) : raw(r) {}
  TKey(int cls, int spelling) : raw(cls * 10 + spelling) {}
  TKey(const TKey& o) : raw((fault::copy_point(), o.raw)), c(o.c) {}
  TKey(TKey&& o) : raw((fault::copy_point(), o.raw)), c(o.c) {}
  TKey& operator=(const TKey& o) { fault::copy_point(); raw = o.raw; c = o.c; return *this; }
  bool operator==(const TKey& o) const { fault::count(); c.check(); o.c.check(); return raw == o.raw; }
  bool operator!=(const TKey& o) const { return !(*this == o); }
};
struct TVal {
  int v;
  Counted<&live_vals> c;
  explicit TVal(int x) : v(x) {}
  TVal(int hi, int lo) : v(hi * 10 + lo) {}
  TVal(const TVal& o) : v((fault::copy_point(), o.v)), c(o.c) {}
  TVal(TVal&& o) : v((fault::copy_point(), o.v)), c(o.c) { o.v = -7; }
  TVal& operator=(const TVal& o) { fault::copy_point(); v = o.v; c = o.c; return *this; }
  bool operator==(const TVal& o) const { c.check(); o.c.check(); return v == o.v; }
  bool operator!=(const TVal& o) const { return !(*this == o); }
};
namespace std {
template <> struct hash<TKey> {
  size_t operator()(const TKey& k) const { fault::hash(); k.c.check(); return k.raw; }
};
}
// Stateful function objects: 7 identifies keys of the same class and makes all
// of them collide in two buckets, anything else distinguishes spellings.
struct THash {
  int id;
  explicit THash(int i = 0) : id(i) {}
  size_t operator()(const TKey& k) const { fault::hash(); k.c.check(); return id == 7 ? (k.raw / 10) % 2 : k.raw; }
};
struct TEq {
  int id;
  explicit TEq(int i = 0) : id(i) {}
  bool operator()(const TKey& a, const TKey& b) const {
    fault::count(); a.c.check(); b.c.check();
    return id == 7 ? a.raw / 10 == b.raw / 10 : a.raw == b.raw;
  }
};

struct IntTraits {
  using Key = int; using Value = int;
  static int key(int k) { return k; }
  static int value(int v) { return v; }
  static int kid(int k) { return k; }
  static int vid(int v) { return v; }
  static constexpr bool custom = false;
};
struct StrTraits {
  using Key = string; using Value = string;
  static string key(int k) { return "a-key-long-enough-to-live-on-the-heap-" + std::to_string(k); }
  static string value(int v) { return "a-value-long-enough-to-live-on-the-heap-" + std::to_string(v); }
  static int num(const string& s, size_t n) {
    if (s.size() <= n) return -1;
    return atoi(s.c_str() + n);
  }
  static int kid(const string& k) { return num(k, 38); }
  static int vid(const string& v) { return num(v, 40); }
  static constexpr bool custom = false;
};
struct ObjTraits {
  using Key = TKey; using Value = TVal;
  static TKey key(int k) { return TKey(k); }
  static TVal value(int v) { return TVal(v); }
  static int kid(const TKey& k) { k.c.check(); return k.raw; }
  static int vid(const TVal& v) { v.c.check(); return v.v; }
  static constexpr bool custom = true;
};

#if VARIANT == 1
using T = IntTraits; using C = LRU::Cache<int, int>;
#define TIMED 0
#elif VARIANT == 2
using T = StrTraits; using C = LRU::Cache<string, string>;
#define TIMED 0
#elif VARIANT == 3
using T = ObjTraits; using C = LRU::Cache<TKey, TVal, THash, TEq>;
#define TIMED 0
#elif VARIANT == 4
using T = StrTraits; using C = LRU::TimedCache<string, string>;
#define TIMED 1
#elif VARIANT == 5
using T = IntTraits; using C = LRU::TimedCache<int, int, std::chrono::milliseconds>;
#define TIMED 1
#elif VARIANT == 6
using T = IntTraits; using C = LRU::TimedCache<int, int, std::chrono::duration<int>>;
#define TIMED 1
#elif VARIANT == 7
using T = ObjTraits;
using C = LRU::TimedCache<TKey, TVal, std::chrono::duration<double, std::milli>, THash, TEq>;
#define TIMED 1
#endif

#if VARIANT == 4
using Period = std::chrono::duration<double, std::milli>;
#elif VARIANT == 5
using Period = std::chrono::milliseconds;
#elif VARIANT == 6
using Period = std::chrono::duration<int>;
#elif VARIANT == 7
using Period = std::chrono::duration<double, std::milli>;
#endif

#define CUSTOM (VARIANT == 3 || VARIANT == 7)
#if TIMED
#define IF_TIMED(...) __VA_ARGS__
#define IF_UNTIMED(...)
#else
#define IF_TIMED(...)
#define IF_UNTIMED(...) __VA_ARGS__
#endif
#if CUSTOM
#define IF_CUSTOM(...) __VA_ARGS__
#define IF_STANDARD(...)
#else
#define IF_CUSTOM(...)
#define IF_STANDARD(...) __VA_ARGS__
#endif
using K = T::Key;
using V = T::Value;
using Stats = LRU::Statistics<K>;
using StatsPtr = std::shared_ptr<Stats>;
using Pair = std::pair<K, V>;
using IL = std::initializer_list<Pair>;

static constexpr int NSLOT = 3, NHAND = 6, NUNIV = 24;

// ---------------------------------------------------------------- state
struct Handle {
  bool on = false;
  int c = 0, kind = 0;  // 0 unordered, 1 ordered, 2 const unordered, 3 const ordered
  int k = 0;            // raw key it denotes, 0 past-the-end
  bool shy = false;     // looked at through copies only, not by dereferencing it
  std::unique_ptr<C::UnorderedIterator> u;
  std::unique_ptr<C::UnorderedConstIterator> uc;
  std::unique_ptr<C::OrderedIterator> o;
  std::unique_ptr<C::OrderedConstIterator> oc;
};

static TL std::unique_ptr<C> slot[NSLOT + 1];
static TL Handle hand[NHAND + 1];
static TL vector<StatsPtr> stats_objs;
static TL vector<std::array<int, 4>> fired;
static TL long long tick_ns = 1;
static TL bool observe_on = true;
static TL bool use_custom = true;
static TL int identity = 7;  // of the hash and equality objects of the cache under construction
static TL int universe = 6;  // keys 1..universe are asked about in statistics
static TL FILE* out;

static int sid(const StatsPtr& p) {
  if (!p) return 0;
  for (size_t i = 0; i < stats_objs.size(); ++i) if (stats_objs[i] == p) return i + 1;
  stats_objs.push_back(p);
  return stats_objs.size();
}

// ---------------------------------------------------------------- events
struct Ev {
  string op;
  vector<int> a;
  vector<std::array<int, 2>> l;
  string x;             // exception, "" if none
  long n = 0;           // scalar result
  vector<long> r;       // further results
  bool log = true;
};

template <typename F>
static void guarded(Ev& e, F f) {
  struct Disarm { ~Disarm() { fault::armed = false; } } disarm;
  try {
    f();
  }
  catch (const LRU::Error::KeyNotFound&) { e.x = "KeyNotFound"; }
  catch (const LRU::Error::KeyExpired&) { e.x = "KeyExpired"; }
  catch (const LRU::Error::EmptyCache&) { e.x = "EmptyCache"; }
  catch (const LRU::Error::InvalidIteratorConversion&) { e.x = "InvalidIteratorConversion"; }
  catch (const LRU::Error::InvalidIterator&) { e.x = "InvalidIterator"; }
  catch (const LRU::Error::UnmonitoredKey&) { e.x = "UnmonitoredKey"; }
  catch (const LRU::Error::NotMonitoring&) { e.x = "NotMonitoring"; }
  catch (const fault::Fault&) { e.x = "Fault"; }
  catch (const std::bad_alloc&) { e.x = "Fault"; }
  catch (const std::exception& x) { e.x = "Other"; }
}
// Runs library code with the faults armed.
template <typename F>
static decltype(auto) lib(F f) {
  struct Arm {
    Arm() { fault::armed = vclock::inside = true; }
    ~Arm() { fault::armed = vclock::inside = false; }
  } arm;
  return f();
}

static const C& cc(int s) { return *slot[s]; }

// Capacities too large for the traces go by codes.
static const std::map<int, size_t> large = {
  {2000000000, size_t(1) << 32}, {2000000001, (size_t(1) << 32) + 3}, {2000000002, size_t(-1)},
  {2000000003, size_t(1) << 31}, {2000000004, (size_t(1) << 31) - 1}, {2000000005, size_t(1) << 63}};
static size_t size_for(int code) {
  auto it = large.find(code);
  return it == large.end() ? size_t(code) : it->second;
}
static long code_for(size_t n) {
  for (auto& p : large) if (p.second == n) return p.first;
  return std::min<size_t>(n, 1999999999);
}
// How much less than the capacity is left, as seen from the code.
static long left_for(size_t cap, size_t left) {
  return cap >= left && cap - left < 1000000 ? code_for(cap) - long(cap - left) : -long(left % 1000000) - 1;
}

// Address of the stored value of a key, found without an access.
static const void* where(C& c, const K& key) {
  size_t guard = c.size() + 2;
  for (auto it = c.unordered_begin(); it != c.unordered_end() && guard--; ++it)
    if (c.key_equal()((*it).key(), key)) return &(*it).value();
  return nullptr;
}

// ---------------------------------------------------------------- observation
static int fid(const C& c) {
#if CUSTOM
  int h = c.hash_function().id, q = c.key_equal().id;
  return h == q ? h : 100 + 10 * h + q;
#else
  return 0;
#endif
}

// Where the values of the entries were when last observed.
static TL std::map<int, const void*> places[NSLOT + 1];
static string moved(int i) {
  std::map<int, const void*> now;
  string s = "[";
  C& c = *slot[i];
  size_t g = c.size() + 3;
  for (auto it = c.unordered_begin(); it != c.unordered_end() && g--; ++it) {
    int k = T::kid((*it).key());
    now[k] = &(*it).value();
    auto was = places[i].find(k);
    if (was != places[i].end() && was->second != now[k]) s += (s.size() > 1 ? "," : "") + std::to_string(k);
  }
  places[i].swap(now);
  return s + "]";
}

static void put_slot(string& s, int i) {
  C& c = *slot[i];
  const C& k = c;
  auto num = [&s](long n) { s += std::to_string(n); s += ','; };
  auto seal = [&s](char b) { if (s.back() == ',') s.back() = b; else s += b; };
  s += "{\"c\":"; num(i);
  s += "\"cap\":"; num(code_for(k.capacity()));
  s += "\"size\":"; num(k.size());
  s += "\"em\":"; num(k.is_empty());
  s += "\"fu\":"; num(k.is_full());
  s += "\"le\":"; num(left_for(k.capacity(), k.space_left()));
  const size_t limit = k.size() + 3;
  size_t g;
  vector<std::pair<int, int>> ord, un;
  // ordered, non-const
  s += "\"ord\":[";
  g = limit;
  for (auto it = c.ordered_begin(); it != c.ordered_end() && g--; ++it) {
    auto& entry = *it;
    ord.emplace_back(T::kid(entry.key()), T::vid(entry.value()));
    int expired = 0;
    IF_TIMED(expired = k.has_expired(entry.key());)
    s += '['; num(ord.back().first); num(ord.back().second); num(expired); seal(']'); s += ',';
  }
  seal(']');
  // backwards from the end
  s += ",\"rev\":[";
  if (!ord.empty()) {
    auto it = c.ordered_end();
    g = limit;
    do { --it; num(T::kid((*it).key())); } while (it != c.ordered_begin() && --g);
  }
  seal(']');
  // unordered, non-const
  s += ",\"un\":[";
  g = limit;
  for (auto it = c.unordered_begin(); it != c.unordered_end() && g--; ++it) {
    un.emplace_back(T::kid((*it).key()), T::vid((*it).value()));
    s += '['; num(un.back().first); num(un.back().second); seal(']'); s += ',';
  }
  seal(']');
  // every other form must give the same sequences
  int agree = 1;
  auto same_un = [&](auto b, auto e) {
    vector<std::pair<int, int>> x;
    size_t g = limit;
    for (; b != e && g--; ++b) x.emplace_back(T::kid(b->first), T::vid(b->second));
    if (x != un) agree = 0;
  };
  auto same_ord = [&](auto b, auto e) {
    vector<std::pair<int, int>> x;
    size_t g = limit;
    while (b != e && g--) { auto p = b++; x.emplace_back(T::kid(p->key()), T::vid(p->value())); }
    if (x != ord) agree = 0;
  };
  same_un(k.unordered_begin(), k.unordered_end());
  same_un(k.unordered_cbegin(), k.unordered_cend());
  same_un(c.begin(), c.end());
  same_un(k.begin(), k.end());
  same_un(c.cbegin(), c.cend());
  same_ord(k.ordered_begin(), k.ordered_end());
  same_ord(c.ordered_cbegin(), c.ordered_cend());
  same_ord(c.ordered_begin(), c.ordered_end());
  {
    vector<std::pair<int, int>> x;
    g = limit;
    for (auto& p : c) { if (!g--) break; x.emplace_back(T::kid(p.first), T::vid(p.second)); }
    if (x != un) agree = 0;
    // backwards through the const view
    if (!ord.empty()) {
      x.clear();
      auto it = k.ordered_cend();
      g = limit;
      do { it--; x.emplace_back(T::kid((*it).key()), T::vid((*it).value())); } while (it != k.ordered_cbegin() && --g);
      std::reverse(x.begin(), x.end());
      if (x != ord) agree = 0;
    }
  }
  s += ",\"ag\":"; num(agree);
  // front and back
  int fr = 0, ba = 0;
  IF_UNTIMED(if (!ord.empty()) { fr = T::kid(k.front()); ba = T::kid(k.back()); })
  s += "\"fr\":"; num(fr);
  s += "\"ba\":"; num(ba);
  s += "\"mon\":"; num(sid(c.shared_stats()));
  s += "\"im\":"; num(k.is_monitoring());
  s += "\"hc\":"; num(k.hit_callbacks().size());
  s += "\"mc\":"; num(k.miss_callbacks().size());
  s += "\"ac\":"; num(k.access_callbacks().size());
  s += "\"ae\":";
  IF_TIMED(num(k.all_expired());)
  IF_UNTIMED(num(0);)
  s += "\"fid\":"; num(fid(k));
  seal('}');
}

static void put_stats(string& s, size_t i) {
  const Stats& st = *stats_objs[i];
  auto num = [&s](long n) { s += std::to_string(n); s += ','; };
  auto seal = [&s](char b) { if (s.back() == ',') s.back() = b; else s += b; };
  s += "{\"acc\":"; num(st.total_accesses());
  s += "\"hit\":"; num(st.total_hits());
  s += "\"mis\":"; num(st.total_misses());
  int rates = 1;
  if (st.total_accesses()) {
    double r = double(st.total_hits()) / st.total_accesses();
    rates = std::abs(st.hit_rate() - r) < 1e-9 && std::abs(st.miss_rate() - (1 - r)) < 1e-9;
  }
  s += "\"ra\":"; num(rates);
  s += "\"nm\":"; num(st.number_of_monitored_keys());
  s += "\"ik\":"; num(st.is_monitoring_keys());
  s += "\"ks\":[";
  for (int k = 1; k <= universe; ++k) {
    auto key = T::key(k);
    if (!st.is_monitoring(key)) continue;
    s += '['; num(k); num(st.hits_for(key)); num(st.misses_for(key)); num(st.accesses_for(key)); seal(']'); s += ',';
  }
  seal(']');
  s += '}';
}

static string observation() {
  string s = "\"o\":[";
  for (int i = 1; i <= NSLOT; ++i) if (slot[i]) { put_slot(s, i); s += ','; }
  if (s.back() == ',') s.back() = ']'; else s += ']';
  s += ",\"s\":[";
  for (size_t i = 0; i < stats_objs.size(); ++i) { put_stats(s, i); s += ','; }
  if (s.back() == ',') s.back() = ']'; else s += ']';
  return s;
}

static void emit(const Ev& e) {
  string s = "{\"op\":\"" + e.op + "\",\"a\":[";
  for (size_t i = 0; i < e.a.size(); ++i) s += (i ? "," : "") + std::to_string(e.a[i]);
  s += "],\"l\":[";
  for (size_t i = 0; i < e.l.size(); ++i)
    s += (i ? ",[" : "[") + std::to_string(e.l[i][0]) + "," + std::to_string(e.l[i][1]) + "]";
  s += "],\"x\":\"" + e.x + "\",\"n\":" + std::to_string(e.n) + ",\"r\":[";
  for (size_t i = 0; i < e.r.size(); ++i) s += (i ? "," : "") + std::to_string(e.r[i]);
  s += "],\"f\":[";
  for (size_t i = 0; i < fired.size(); ++i)
    s += (i ? ",[" : "[") + std::to_string(fired[i][0]) + "," + std::to_string(fired[i][1]) + "," +
         std::to_string(fired[i][2]) + "," + std::to_string(fired[i][3]) + "]";
  s += "],\"ff\":" + std::to_string(fault::fired) + ",\"co\":" + std::to_string(fault::cost) + ",\"hs\":" + std::to_string(fault::hashes);
  fault::cost = fault::hashes = 0;
  fired.clear();
  if (observe_on) {
    string o1 = observation();
    string o2 = observation();
    s += ",\"ob\":1," + o1 + ",\"re\":" + (o1 == o2 ? "1" : "0");
    s += ",\"mv\":[";
    for (int i = 1; i <= NSLOT; ++i) {
      if (!slot[i]) places[i].clear();
      s += (i > 1 ? "," : "") + (slot[i] ? moved(i) : string("[]"));
    }
    s += "]";
    s += ",\"fo\":" + std::to_string(fired.size());
    s += ",\"g\":[" + std::to_string(live_keys) + "," + std::to_string(live_vals) + "," + std::to_string(bad_objects) + "]";
    fired.clear();
  } else {
    for (auto& p : places) p.clear();
    s += ",\"ob\":0,\"g\":[" + std::to_string(live_keys) + "," + std::to_string(live_vals) + "," + std::to_string(bad_objects) + "]";
  }
  s += "}\n";
  fwrite(s.data(), 1, s.size(), out);
  fflush(out);
}

// ---------------------------------------------------------------- helpers
static vector<Pair> pairs(const Ev& e) {
  vector<Pair> v;
  v.reserve(e.l.size());
  for (auto& p : e.l) v.emplace_back(T::key(p[0]), T::value(p[1]));
  return v;
}
static bool intact(const Ev& e, const vector<Pair>& v) {
  if (v.size() != e.l.size()) return false;
  for (size_t i = 0; i < v.size(); ++i)
    if (T::kid(v[i].first) != e.l[i][0] || T::vid(v[i].second) != e.l[i][1]) return false;
  return true;
}
template <typename F>
static bool with_list(const vector<Pair>& v, F f) {
  switch (v.size()) {
    case 0: { IL il{}; f(il); return true; }
    case 1: { IL il{v[0]}; f(il); return true; }
    case 2: { IL il{v[0], v[1]}; f(il); return true; }
    case 3: { IL il{v[0], v[1], v[2]}; f(il); return true; }
    case 4: { IL il{v[0], v[1], v[2], v[3]}; f(il); return true; }
    default: return false;
  }
}

// An iterator over a sequence that can be read only once.
struct Once {
  using iterator_category = std::input_iterator_tag;
  using value_type = Pair;
  using difference_type = std::ptrdiff_t;
  using pointer = const Pair*;
  using reference = const Pair&;
  const vector<Pair>* v;
  size_t* at;
  reference operator*() const { return (*v)[*at]; }
  pointer operator->() const { return &(*v)[*at]; }
  Once& operator++() { ++*at; return *this; }
  bool ended() const { return !v || *at >= v->size(); }
  bool operator==(const Once& o) const { return ended() == o.ended(); }
  bool operator!=(const Once& o) const { return ended() != o.ended(); }
};
template <typename F>
static void once(const vector<Pair>& v, F f) {
  size_t at = 0;
  f(Once{&v, &at}, Once{nullptr, nullptr});
}
// Elements whose keys cannot be moved from.
using Constants = std::forward_list<std::pair<const K, V>>;
static Constants constants(const vector<Pair>& v) {
  Constants l;
  auto at = l.before_begin();
  for (auto& p : v) at = l.insert_after(at, std::pair<const K, V>(p.first, p.second));
  return l;
}
// Elements of types that become keys and values.
#if CUSTOM
static Constants others(const vector<Pair>& v) { return constants(v); }
#elif VARIANT == 2 || VARIANT == 4
static auto others(const vector<Pair>& v) {
  vector<std::pair<const char*, const char*>> l;
  for (auto& p : v) l.emplace_back(p.first.c_str(), p.second.c_str());
  return l;
}
#else
static auto others(const vector<Pair>& v) {
  vector<std::pair<short, long>> l;
  for (auto& p : v) l.emplace_back(p.first, p.second);
  return l;
}
#endif

// The operation is given the elements of another cache.
template <typename I>
static void take(Ev& e, I it, I end) {
  e.l.clear();
  for (; it != end; ++it) e.l.push_back({T::kid((*it).key()), T::vid((*it).value())});
}

using Ttl = std::chrono::nanoseconds;
static const long FOREVER = 1000000000;  // and more: the longest time to live there is
template <typename T, typename... A>
static C* make_with(const T& ttl, A&&... a) {
  IF_CUSTOM(if (identity) return lib([&] { return new C(IF_TIMED(ttl,) std::forward<A>(a)..., THash(identity), TEq(identity)); });)
  return lib([&] { return new C(IF_TIMED(ttl,) std::forward<A>(a)...); });
}
template <typename... A>
static C* make(long ttl, A&&... a) {
  IF_TIMED(if (ttl >= FOREVER) return make_with(Period::max(), std::forward<A>(a)...);)
  return make_with(Ttl(ttl * tick_ns), std::forward<A>(a)...);
}

static void drop_handles(int c) {
  for (auto& h : hand) if (h.on && h.c == c) h = Handle();
}
static void drop_key(int c, int k) {
  for (auto& h : hand) if (h.on && h.c == c && h.k == k) h = Handle();
}
static void drop_unordered(int c) {
  for (auto& h : hand) if (h.on && h.c == c && (h.kind == 0 || h.kind == 2)) h = Handle();
}
// Drops the handles whose entry is gone (decided without touching them).
static void sweep() {
  for (int c = 1; c <= NSLOT; ++c) {
    if (!slot[c]) { drop_handles(c); continue; }
    for (auto& h : hand) {
      if (!h.on || h.c != c || h.k == 0) continue;
      bool found = false;
      size_t g = slot[c]->size() + 2;
      for (auto it = slot[c]->unordered_begin(); it != slot[c]->unordered_end() && g--; ++it)
        if (T::kid((*it).key()) == h.k) found = true;
      if (!found) h = Handle();
    }
  }
}
template <typename F>
static void visit(Handle& h, F f) {
  switch (h.kind) {
    case 0: f(*h.u); break;
    case 1: f(*h.o); break;
    case 2: f(*h.uc); break;
    case 3: f(*h.oc); break;
  }
}
static bool at_end(Handle& h) {
  const C& c = *slot[h.c];
  C& m = *slot[h.c];
  switch (h.kind) {
    case 0: return *h.u == m.unordered_end();
    case 1: return *h.o == m.ordered_end();
    case 2: return *h.uc == c.unordered_cend();
    default: return *h.oc == c.ordered_cend();
  }
}
static void position(Handle& h) {
  if (at_end(h)) h.k = 0;
  else if (h.shy) visit(h, [&](auto& it) { auto copy = it; h.k = T::kid((*copy).key()); });
  else visit(h, [&](auto& it) { h.k = T::kid((*it).key()); });
}

// ---------------------------------------------------------------- operations
static bool alive(int c) { return c >= 1 && c <= NSLOT && slot[c]; }
static bool has_key(C& c, int raw) {
  size_t g = c.size() + 2;
  for (auto it = c.unordered_begin(); it != c.unordered_end() && g--; ++it)
    if (T::kid((*it).key()) == raw) return true;
  return false;
}

struct Cb {
  int id, type;
  void operator()(const K& k, const V& v) const {
    fired.push_back({id, 0, T::kid(k), T::vid(v)});
    if (id >= 100) { fault::fired = true; throw fault::Fault(); }
  }
};
struct CbMiss {
  int id;
  void operator()(const K& k) const {
    fired.push_back({id, 1, T::kid(k), 0});
    if (id >= 100) { fault::fired = true; throw fault::Fault(); }
  }
};
struct CbAcc {
  int id;
  void operator()(const K& k, bool hit) const {
    fired.push_back({id, 2, T::kid(k), hit});
    if (id >= 100) { fault::fired = true; throw fault::Fault(); }
  }
};

static void op_new(Ev& e) {
  int c = e.a[0], form = e.a[1], cap = e.a[2], ttl = e.a[3];
  if (c < 1 || c > NSLOT || slot[c]) { e.log = false; return; }
  auto v = pairs(e);
  size_t ucap = size_for(cap);
  C* src = nullptr;
  if (form >= 15 && form <= 18) {
    if (!alive(e.a[5])) { e.log = false; return; }
    src = slot[e.a[5]].get();
  }
  guarded(e, [&] {
    C* p = nullptr;
    e.n = 1;
    switch (form) {
      case 0: p = make(ttl, ucap); break;
      case 1:
        IF_TIMED(if (ttl >= FOREVER) p = lib([&] { return new C(Period::max()); }); else)
        p = lib([&] { return new C(IF_TIMED(Ttl(ttl * tick_ns))); });
        break;
      case 2: p = make(ttl, ucap, v.begin(), v.end()); e.n = intact(e, v); break;
      case 3: p = make(ttl, v.begin(), v.end()); e.n = intact(e, v); break;
      case 4: p = make(ttl, ucap, v); e.n = intact(e, v); break;
      case 5: p = make(ttl, v); e.n = intact(e, v); break;
      case 6: { auto w = v; p = make(ttl, ucap, std::move(w)); break; }
      case 7: { auto w = v; p = make(ttl, std::move(w)); break; }
      case 8:
        if (!with_list(v, [&](const IL& il) { p = make(ttl, IL(il)); })) e.log = false;
        break;
      case 9:
        if (!with_list(v, [&](const IL& il) { p = make(ttl, ucap, IL(il)); })) e.log = false;
        break;
      case 10: { const auto& w = v; p = make(ttl, w); e.n = intact(e, v); break; }
      case 11: { const auto& w = v; p = make(ttl, ucap, w); e.n = intact(e, v); break; }
      case 12: { std::list<Pair> w(v.begin(), v.end()); p = make(ttl, ucap, w.begin(), w.end());
                 e.n = intact(e, vector<Pair>(w.begin(), w.end())); break; }
      case 13: { std::list<Pair> w(v.begin(), v.end()); p = make(ttl, w);
                 e.n = intact(e, vector<Pair>(w.begin(), w.end())); break; }
      case 14: p = make(ttl, v.cbegin(), v.cend()); e.n = intact(e, v); break;
      case 15: take(e, src->ordered_begin(), src->ordered_end());
               p = make(ttl, ucap, src->ordered_begin(), src->ordered_end()); break;
      case 16: take(e, src->unordered_begin(), src->unordered_end());
               p = make(ttl, src->unordered_begin(), src->unordered_end()); break;
      case 17: take(e, src->begin(), src->end()); p = make(ttl, ucap, *src); break;
      case 18: { const C& s = *src; take(e, s.ordered_begin(), s.ordered_end());
               p = make(ttl, s.ordered_begin(), s.ordered_end()); break; }
      case 19: once(v, [&](Once a, Once b) { p = make(ttl, ucap, a, b); }); e.n = intact(e, v); break;
      case 20: { auto w = constants(v); p = make(ttl, ucap, std::move(w)); break; }
      case 21: { auto w = constants(v); p = make(ttl, std::move(w)); break; }
      case 22: p = make(ttl, v.data(), v.data() + v.size()); e.n = intact(e, v); break;
      case 23: { auto w = others(v); p = make(ttl, ucap, w); break; }
      case 24: { auto w = others(v); p = make(ttl, std::move(w)); break; }
      default: e.log = false;
    }
#ifdef THREADED
    // ... as a copy of a cache that other threads may be copying just now
    if (p && form <= 14 && (!TIMED || v.empty())) {
      static std::mutex guard;
      static std::map<std::array<long, 5>, std::unique_ptr<const C>> prototypes;
      long contents = 0;
      for (auto& l : e.l) contents = contents * 10007 + l[0] * 101 + l[1];
      const C* source;
      {
        std::lock_guard<std::mutex> lock(guard);
        auto& q = prototypes[{form, cap, ttl, long(ttl * tick_ns), contents}];
        if (!q) q.reset(new C(*p));
        source = q.get();
      }
      C* copied = new C(*source);
      if (cap % 2) *copied = *source;
      const bool same = copied->size() == source->size() && *copied == *source;
      delete p;
      p = copied;
      if (!same) e.x = "Differs";
    }
#endif
    slot[c].reset(p);
  });
}

static void op_assign(Ev& e) {
  int c = e.a[0], form = e.a[1];
  if (!alive(c)) { e.log = false; return; }
  auto v = pairs(e);
  drop_handles(c);
  guarded(e, [&] {
    e.n = 1;
    C& x = *slot[c];
    switch (form) {
      case 0: lib([&] { x = v; }); e.n = intact(e, v); break;
      case 1: { const auto& w = v; lib([&] { x = w; }); e.n = intact(e, v); break; }
      case 2: { auto w = v; lib([&] { x = std::move(w); }); break; }
      case 3:
        if (!with_list(v, [&](const IL& il) { lib([&] { x = il; }); })) e.log = false;
        break;
      case 4: { std::list<Pair> w(v.begin(), v.end()); lib([&] { x = w; });
                e.n = intact(e, vector<Pair>(w.begin(), w.end())); break; }
      case 5: {
        switch (v.size()) {
          case 1: lib([&] { x = {v[0]}; }); break;
          case 2: lib([&] { x = {v[0], v[1]}; }); break;
          case 3: lib([&] { x = {v[0], v[1], v[2]}; }); break;
          default: e.log = false;
        }
        break;
      }
      case 6: { auto w = constants(v); lib([&] { x = std::move(w); }); break; }
      case 7: { auto w = others(v); lib([&] { x = w; }); break; }
      case 8: { const std::deque<Pair> w(v.begin(), v.end()); lib([&] { x = w; }); break; }
      default: e.log = false;
    }
  });
}

static void op_copy(Ev& e) {
  int d = e.a[0], s = e.a[1], form = e.a[2];
  if (!alive(s)) { e.log = false; return; }
  C& src = *slot[s];
  if (form < 10) {  // construction
    if (d < 1 || d > NSLOT || slot[d]) { e.log = false; return; }
    guarded(e, [&] {
      C* p = nullptr;
      switch (form) {
        case 0: p = lib([&] { return new C(static_cast<const C&>(src)); }); break;
        case 1: p = lib([&] { return new C(src); }); break;
        case 2: p = lib([&] { auto f = [](const C& x) { return C(x); }; return new C(f(src)); }); break;
        default: e.log = false;
      }
      slot[d].reset(p);
    });
  } else {
    if (!alive(d)) { e.log = false; return; }
    if (d != s) drop_handles(d);
    else drop_handles(d);
    guarded(e, [&] {
      switch (form) {
        case 10: lib([&] { *slot[d] = static_cast<const C&>(src); }); break;
        case 11: lib([&] { *slot[d] = src; }); break;
        default: e.log = false;
      }
    });
  }
}

static void op_move(Ev& e) {
  int d = e.a[0], s = e.a[1], form = e.a[2];
  if (!alive(s) || d == s) { e.log = false; return; }
  drop_handles(s);
  if (form < 10) {
    if (d < 1 || d > NSLOT || slot[d]) { e.log = false; return; }
    guarded(e, [&] { slot[d].reset(lib([&] { return new C(std::move(*slot[s])); })); });
  } else {
    if (!alive(d)) { e.log = false; return; }
    drop_handles(d);
    guarded(e, [&] { lib([&] { *slot[d] = std::move(*slot[s]); }); });
  }
}

static void op_swap(Ev& e) {
  int a = e.a[0], b = e.a[1], form = e.a[2];
  if (!alive(a) || !alive(b)) { e.log = false; return; }
  drop_handles(a);
  drop_handles(b);
  guarded(e, [&] {
    lib([&] {
      switch (form) {
        case 0: slot[a]->swap(*slot[b]); break;
        case 1: swap(*slot[a], *slot[b]); break;
        case 2: { using std::swap; swap(*slot[a], *slot[b]); break; }
        case 3: if (a != b) std::swap(*slot[a], *slot[b]); break;
      }
    });
  });
}

template <typename R>
static void insertion(Ev& e, C& c, const K& key, R result) {
  const bool key_of_result = e.a[1] % 2;   // either way to the iterator
  e.n = result.was_inserted();
  int consistent = (bool(result) == e.n) && (result.first == e.n);
  consistent = consistent && result.second == result.iterator();
  auto it = key_of_result ? result.second : result.iterator();
  if (it == c.end()) e.r = {0, 0, consistent, 1};
  else {
    auto& entry = *it;
    int same = where(c, key) == static_cast<const void*>(&entry.value());
    e.r = {T::kid(entry.key()), T::vid(entry.value()), consistent, same};
  }
}

// The key as it is stored, if it is: a reference into the cache.
static const K& stored(C& x, const K& key) {
  for (auto it = x.unordered_begin(); it != x.unordered_end(); ++it)
    if (x.key_equal()((*it).key(), key)) return (*it).key();
  return key;
}

static void op_insert(Ev& e) {
  int c = e.a[0], k = e.a[1], v = e.a[2], form = e.a[3];
  if (!alive(c)) { e.log = false; return; }
  C& x = *slot[c];
  auto key = T::key(k);
  auto value = T::value(v);
  drop_unordered(c);
#if TIMED
  if (x.has_expired(key)) {
    // the entry may be replaced
    for (auto& h : hand) if (h.on && h.c == c && h.k && x.key_equal()(T::key(h.k), key)) h = Handle();
  }
#endif
  guarded(e, [&] {
    switch (form) {
      case 0: insertion(e, x, key, lib([&] { return x.insert(key, value); })); break;
      case 1: insertion(e, x, key, lib([&] { return x.emplace(key, value); })); break;
      case 2: { auto kk = key; auto vv = value;
                insertion(e, x, key, lib([&] { return x.emplace(std::move(kk), std::move(vv)); })); break; }
      case 3: {
#if CUSTOM
        insertion(e, x, key, lib([&] { return x.emplace(std::piecewise_construct, std::forward_as_tuple(k / 10, k % 10), std::forward_as_tuple(v / 10, v % 10)); }));
#else
        insertion(e, x, key, lib([&] { return x.emplace(std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(value)); }));
#endif
        break;
      }
      case 4: {  // the arguments live inside the cache
        const K* pk = &stored(x, key); const V* pv = &value;
        for (auto it = x.unordered_begin(); it != x.unordered_end(); ++it)
          if (T::vid((*it).value()) == v) pv = &(*it).value();
        insertion(e, x, key, lib([&] { return x.insert(*pk, *pv); })); break;
      }
      case 6: {
        const K* pk = &stored(x, key); const V* pv = &value;
        for (auto it = x.unordered_begin(); it != x.unordered_end(); ++it)
          if (T::vid((*it).value()) == v) pv = &(*it).value();
        insertion(e, x, key, lib([&] { return x.emplace(*pk, *pv); })); break;
      }
      case 7: {  // from what keys and values are made of
#if VARIANT == 2 || VARIANT == 4
        insertion(e, x, key, lib([&] { return x.emplace(key.c_str(), value.c_str()); }));
#else
        const short ks = k; const long vl = v;
        insertion(e, x, key, lib([&] { return x.emplace(ks, vl); }));
#endif
        break;
      }
      case 5: {  // through the base's list overload
        IL il{Pair(key, value)};
        size_t n = lib([&] { return x.insert(il); });
        e.n = n;
        e.r = {};
        break;
      }
      default: e.log = false;
    }
  });
}

static void op_insert_range(Ev& e) {
  int c = e.a[0], form = e.a[1];
  if (!alive(c)) { e.log = false; return; }
  C& x = *slot[c];
  auto v = pairs(e);
  C* src = nullptr;
  if (form >= 7 && form <= 11) {
    int s = e.a[2];
    if (!alive(s) || s == c) { e.log = false; return; }
    src = slot[s].get();
  }
  drop_handles(c);
  guarded(e, [&] {
    e.r = {1};
    switch (form) {
      case 0: e.n = lib([&] { return x.insert(v); }); e.r = {intact(e, v)}; break;
      case 1: { const auto& w = v; e.n = lib([&] { return x.insert(w); }); e.r = {intact(e, v)}; break; }
      case 2: { auto w = v; e.n = lib([&] { return x.insert(std::move(w)); }); break; }
      case 3: e.n = lib([&] { return x.insert(v.begin(), v.end()); }); e.r = {intact(e, v)}; break;
      case 4:
        if (!with_list(v, [&](const IL& il) { e.n = lib([&] { return x.insert(il); }); })) e.log = false;
        break;
      case 5: { std::list<Pair> w(v.begin(), v.end()); e.n = lib([&] { return x.insert(w); });
                e.r = {intact(e, vector<Pair>(w.begin(), w.end()))}; break; }
      case 6: { std::list<Pair> w(v.begin(), v.end()); e.n = lib([&] { return x.insert(w.begin(), w.end()); });
                e.r = {intact(e, vector<Pair>(w.begin(), w.end()))}; break; }
      case 7: take(e, src->unordered_begin(), src->unordered_end());
              e.n = lib([&] { return x.insert(src->unordered_begin(), src->unordered_end()); }); break;
      case 8: take(e, src->ordered_begin(), src->ordered_end());
              e.n = lib([&] { return x.insert(src->ordered_begin(), src->ordered_end()); }); break;
      case 9: { const C& s = *src; take(e, s.ordered_begin(), s.ordered_end());
              e.n = lib([&] { return x.insert(s.ordered_begin(), s.ordered_end()); }); break; }
      case 10: take(e, src->begin(), src->end()); e.n = lib([&] { return x.insert(*src); }); break;
      case 11: { const C& s = *src; take(e, s.begin(), s.end()); e.n = lib([&] { return x.insert(s); }); break; }
      case 12: once(v, [&](Once a, Once b) { e.n = lib([&] { return x.insert(a, b); }); }); e.r = {intact(e, v)}; break;
      case 13: { auto w = constants(v); e.n = lib([&] { return x.insert(std::move(w)); }); break; }
      case 14: e.n = lib([&] { return x.insert(v.data(), v.data() + v.size()); }); e.r = {intact(e, v)}; break;
      case 15: { auto w = others(v); e.n = lib([&] { return x.insert(w); }); break; }
      case 16: { const std::deque<Pair> w(v.begin(), v.end()); e.n = lib([&] { return x.insert(w); }); break; }
      default: e.log = false;
    }
  });
}

static void op_acc(Ev& e) {  // forms from 8: as 0 to 7, with a reference to the stored key
  int c = e.a[0], k = e.a[1], form = e.a[2] % 8;
  const bool inside = e.a[2] >= 8;
  e.a[2] = form;
  if (!alive(c)) { e.log = false; return; }
  C& x = *slot[c];
  const C& y = x;
  const auto own = T::key(k);
  const K& key = inside ? stored(x, own) : own;
  auto by_iterator = [&](auto it, auto end) {
    if (it == end) { e.n = 0; return; }
    e.n = 1;
    auto& entry = *it;
    e.r = {T::vid(entry.value()), where(x, key) == static_cast<const void*>(&entry.value()), T::kid(entry.key())};
  };
  auto by_value = [&](const V& v) {
    e.n = 1;
    e.r = {T::vid(v), where(x, key) == static_cast<const void*>(&v)};
  };
  guarded(e, [&] {
    switch (form) {
      case 0: by_iterator(lib([&] { return x.find(key); }), x.end()); break;
      case 1: by_iterator(lib([&] { return y.find(key); }), y.end()); break;
      case 2: e.n = lib([&] { return x.contains(key); }); break;
      case 3: e.n = lib([&] { return y.contains(key); }); break;
      case 4: by_value(lib([&]() -> const V& { return x.lookup(key); })); break;
      case 5: by_value(lib([&]() -> const V& { return y.lookup(key); })); break;
      case 6: by_value(lib([&]() -> const V& { return x[key]; })); break;
      case 7: by_value(lib([&]() -> const V& { return y[key]; })); break;
      default: e.log = false;
    }
  });
}

static void op_acc_many(Ev& e) {  // c k form n mixed: the same access n times, or in turn with contains
  int c = e.a[0], n = e.a[3];
  if (!alive(c) || n < 1) { e.log = false; return; }
  const C& y = *slot[c];
  if (!y.hit_callbacks().empty() || !y.miss_callbacks().empty() || !y.access_callbacks().empty()) { e.log = false; return; }
  Ev first = e;
  first.a[3] = first.a[4] = 0;
  op_acc(first);
  for (int i = 1; i < n && first.log; ++i) {
    Ev again = e;
    again.a[3] = again.a[4] = 0;
    const bool asked = e.a[4] && i % 2;
    if (asked) again.a[2] = 2 + i / 2 % 2;
    op_acc(again);
    const bool same = asked ? (again.n != 0) == (first.x.empty() && first.n) && again.x.empty()
                            : again.x == first.x && again.n == first.n && again.r == first.r;
    if (!same) first.x = "Differs";
  }
  e.a[2] = first.a[2];
  e.x = first.x; e.n = first.n; e.r = first.r; e.log = first.log;
}

static void op_write(Ev& e) {
  int c = e.a[0], k = e.a[1], v = e.a[2], form = e.a[3];
  if (!alive(c)) { e.log = false; return; }
  C& x = *slot[c];
  auto key = T::key(k);
  auto value = T::value(v);
  guarded(e, [&] {
    switch (form) {
      case 0: { V& r = lib([&]() -> V& { return x.lookup(key); }); r = value; e.n = 1; break; }
      case 1: { V& r = lib([&]() -> V& { return x[key]; }); r = value; e.n = 1; break; }
      case 2: { auto it = lib([&] { return x.find(key); }); if (it != x.end()) { it.value() = value; e.n = 1; } break; }
      case 3: { auto it = lib([&] { return x.find(key); }); if (it != x.end()) { it->second = value; e.n = 1; } break; }
      case 4: { for (auto it = x.ordered_begin(); it != x.ordered_end(); ++it)
                  if (x.key_equal()((*it).key(), key)) { (*it).value() = value; e.n = 1; break; }
                break; }
      case 5: { for (auto& p : x) if (x.key_equal()(p.first, key)) { p.second = value; e.n = 1; break; }
                break; }
      default: e.log = false;
    }
  });
}

static void op_erase(Ev& e) {
  int c = e.a[0], k = e.a[1], form = e.a[2];
  if (!alive(c)) { e.log = false; return; }
  C& x = *slot[c];
  auto key = T::key(k);
  if (form == 0) {
    guarded(e, [&] { e.n = lib([&] { return x.erase(key); }); });
  } else {  // with a reference to the stored key
    const K& inside = stored(x, key);
    guarded(e, [&] { e.n = lib([&] { return x.erase(inside); }); });
  }
}

// Erases through an iterator to key k (0: past the end) found without access.
static void op_erase_it(Ev& e) {
  int c = e.a[0], k = e.a[1], form = e.a[2];
  if (!alive(c)) { e.log = false; return; }
  C& x = *slot[c];
  const C& y = x;
  if (k != 0 && !has_key(x, k)) { e.log = false; return; }
  auto seek = [&](auto it, auto end) {
    while (it != end && !(k != 0 && T::kid((*it).key()) == k)) ++it;
    return it;
  };
  guarded(e, [&] {
    e.n = 1;
    switch (form) {
      case 0: { C::UnorderedIterator it = seek(x.unordered_begin(), x.unordered_end()); lib([&] { x.erase(it); }); break; }
      case 1: { C::OrderedIterator it = seek(x.ordered_begin(), x.ordered_end()); lib([&] { x.erase(it); }); break; }
      case 2: { C::UnorderedConstIterator it = seek(y.unordered_cbegin(), y.unordered_cend()); lib([&] { x.erase(it); }); break; }
      case 3: { C::OrderedConstIterator it = seek(y.ordered_cbegin(), y.ordered_cend()); lib([&] { x.erase(it); }); break; }
      default: e.log = false;
    }
  });
  if (!e.x.empty()) e.n = 0;
}

static void op_monitor(Ev& e) {
  int c = e.a[0], form = e.a[1], s = e.a[2];
  if (!alive(c)) { e.log = false; return; }
  C& x = *slot[c];
  vector<K> ks;
  for (auto& p : e.l) ks.push_back(T::key(p[0]));
  if (form == 7 || form == 8 || form >= 12) { if (s < 1 || s > (int)stats_objs.size()) { e.log = false; return; } }
  guarded(e, [&] {
    switch (form) {
      case 0: lib([&] { x.monitor(); }); break;
      case 1: if (ks.size() != 1) { e.log = false; return; } lib([&] { x.monitor(ks[0]); }); break;
      case 2: if (ks.size() != 2) { e.log = false; return; } lib([&] { x.monitor(ks[0], ks[1]); }); break;
      case 3: lib([&] { x.monitor(ks); }); break;
      case 4: lib([&] { x.monitor(ks.begin(), ks.end()); }); break;
      case 5: { auto p = std::make_shared<Stats>(ks); lib([&] { x.monitor(p); }); break; }
      case 6: lib([&] { x.monitor(std::make_shared<Stats>(ks.begin(), ks.end())); }); break;
      case 7: lib([&] { x.monitor(stats_objs[s - 1]); }); break;
      case 8: { auto p = stats_objs[s - 1]; lib([&] { x.monitor(std::move(p)); }); break; }
      case 9: if (ks.size() != 3) { e.log = false; return; } lib([&] { x.monitor(K(ks[0]), K(ks[1]), K(ks[2])); }); break;
      case 10: { switch (ks.size()) {
                   case 0: { std::initializer_list<K> il{}; auto p = std::make_shared<Stats>(il); lib([&] { x.monitor(p); }); break; }
                   case 2: { std::initializer_list<K> il{ks[0], ks[1]}; auto p = std::make_shared<Stats>(il); lib([&] { x.monitor(p); }); break; }
                   default: e.log = false; } break; }
      case 11: lib([&] { x.monitor(StatsPtr()); }); break;
      // with a copy of what was counted so far
      case 12: { auto p = std::make_shared<Stats>(*stats_objs[s - 1]); lib([&] { x.monitor(p); }); break; }
      case 13: { const Stats& q = *stats_objs[s - 1]; lib([&] { x.monitor(q); }); break; }
      case 14: { Stats q = *stats_objs[s - 1]; lib([&] { x.monitor(std::move(q)); }); break; }
      case 15: { auto p = std::make_shared<Stats>(); *p = *stats_objs[s - 1]; lib([&] { x.monitor(p); }); break; }
      default: e.log = false;
    }
    e.n = sid(x.shared_stats());
  });
}

static void op_stats(Ev& e) {  // stats(c): identity of the monitored object
  int c = e.a[0], form = e.a[1];
  if (!alive(c)) { e.log = false; return; }
  guarded(e, [&] {
    const Stats* p = form ? &cc(c).stats() : &slot[c]->stats();
    for (size_t i = 0; i < stats_objs.size(); ++i) if (stats_objs[i].get() == p) e.n = i + 1;
    e.r = {form ? cc(c).is_monitoring() : slot[c]->is_monitoring(), sid(cc(c).shared_stats())};
  });
}

static void op_sop(Ev& e) {  // operations on a statistics object
  if (e.a[0] == 0 && alive(1)) e.a[0] = sid(cc(1).shared_stats());   // whatever is current
  int s = e.a[0], what = e.a[1], k = e.a[2];
  if (s < 1 || s > (int)stats_objs.size()) { e.log = false; return; }
  Stats& st = *stats_objs[s - 1];
  const Stats& ct = st;
  auto key = T::key(k);
  guarded(e, [&] {
    switch (what) {
      case 0: lib([&] { st.monitor(key); }); break;
      case 1: lib([&] { st.unmonitor(key); }); break;
      case 2: lib([&] { st.unmonitor_all(); }); break;
      case 3: lib([&] { st.reset_key(key); }); break;
      case 4: lib([&] { st.reset_all(); }); break;
      case 5: e.n = lib([&] { return ct.hits_for(key); }); break;
      case 6: e.n = lib([&] { return ct.misses_for(key); }); break;
      case 7: e.n = lib([&] { return ct.accesses_for(key); }); break;
      case 8: { auto& q = lib([&]() -> auto& { return ct.stats_for(key); }); e.r = {long(q.hits), long(q.misses), long(q.accesses())}; break; }
      case 9: { auto& q = lib([&]() -> auto& { return ct[key]; }); e.r = {long(q.hits), long(q.misses), long(q.accesses())}; break; }
      case 10: e.n = lib([&] { return ct.is_monitoring(key); }); break;
      default: e.log = false;
    }
  });
}

static void op_cb(Ev& e) {
  int c = e.a[0], type = e.a[1], id = e.a[2], form = e.a[3];
  if (!alive(c)) { e.log = false; return; }
  C& x = *slot[c];
  guarded(e, [&] {
    if (type == 0) {
      Cb f{id, 0};
      std::function<void(const K&, const V&)> g = f;
      if (form == 0) x.hit_callback(f); else if (form == 1) x.hit_callback(g); else x.hit_callback(std::move(g));
    } else if (type == 1) {
      CbMiss f{id};
      std::function<void(const K&)> g = f;
      if (form == 0) x.miss_callback(f); else if (form == 1) x.miss_callback(g); else x.miss_callback(std::move(g));
    } else {
      CbAcc f{id};
      std::function<void(const K&, bool)> g = f;
      if (form == 0) x.access_callback(f); else if (form == 1) x.access_callback(g); else x.access_callback(std::move(g));
    }
  });
}

static void op_clrcb(Ev& e) {
  int c = e.a[0], type = e.a[1];
  if (!alive(c)) { e.log = false; return; }
  C& x = *slot[c];
  guarded(e, [&] {
    if (type == 0) x.clear_hit_callbacks();
    else if (type == 1) x.clear_miss_callbacks();
    else if (type == 2) x.clear_access_callbacks();
    else x.clear_all_callbacks();
  });
}

// ---- iterator handles
static void op_hget(Ev& e) {  // h c kind how k
  int h = e.a[0], c = e.a[1], kind = e.a[2], how = e.a[3], k = e.a[4];
  if (h < 1 || h > NHAND || !alive(c)) { e.log = false; return; }
  C& x = *slot[c];
  const C& y = x;
  Handle n;
  n.c = c;
  n.kind = kind;
  n.shy = h % 2 == 0;
  auto key = T::key(k);
  // how: 0 begin, 1 end, 2 find(k) (unordered only), 3 by iteration to k
  if (how == 2 && (kind == 1 || kind == 3)) { e.log = false; return; }
  if (how == 3 && !has_key(x, k)) { e.log = false; return; }
  guarded(e, [&] {
    auto place = [&](auto& p, auto it) { using I = std::decay_t<decltype(*p)>; p.reset(new I(it)); };
    auto seek = [&](auto it, auto end) {
      auto at = [&](auto i) { return T::kid((*i).key()); };
      while (it != end && (n.shy ? at(it) : T::kid((*it).key())) != k) ++it;
      return it;
    };
    switch (kind) {
      case 0:
        if (how == 0) place(n.u, x.unordered_begin());
        if (how == 1) place(n.u, x.unordered_end());
        if (how == 2) place(n.u, lib([&] { return x.find(key); }));
        if (how == 3) place(n.u, seek(x.unordered_begin(), x.unordered_end()));
        break;
      case 1:
        if (how == 0) place(n.o, x.ordered_begin());
        if (how == 1) place(n.o, x.ordered_end());
        if (how == 3) place(n.o, seek(x.ordered_begin(), x.ordered_end()));
        break;
      case 2:
        if (how == 0) place(n.uc, y.unordered_begin());
        if (how == 1) place(n.uc, y.unordered_end());
        if (how == 2) place(n.uc, lib([&] { return y.find(key); }));
        if (how == 3) place(n.uc, seek(x.unordered_begin(), x.unordered_end()));  // conversion
        break;
      case 3:
        if (how == 0) place(n.oc, y.ordered_begin());
        if (how == 1) place(n.oc, y.ordered_end());
        if (how == 3) place(n.oc, seek(x.ordered_begin(), x.ordered_end()));  // conversion
        break;
    }
    position(n);
    n.on = true;
    e.n = n.k;
    hand[h] = std::move(n);
  });
}

static bool hok(int h) { return h >= 1 && h <= NHAND && hand[h].on; }

static void op_hmove(Ev& e) {  // h what: 0 ++h, 1 h++, 2 --h, 3 h--
  int h = e.a[0], what = e.a[1];
  if (!hok(h)) { e.log = false; return; }
  Handle& x = hand[h];
  C& c = *slot[x.c];
  bool ordered = x.kind == 1 || x.kind == 3;
  if (what >= 2 && !ordered) { e.log = false; return; }
  if (what < 2 && x.k == 0) { e.log = false; return; }
  if (what >= 2) {
    if (c.size() == 0) { e.log = false; return; }
    if (x.k != 0 && T::kid((*c.ordered_begin()).key()) == x.k) { e.log = false; return; }
  }
  guarded(e, [&] {
    long old = -1;
    auto note = [&](auto&& p) {
      // the iterator returned by the postfix forms still denotes the old entry
      old = T::kid((*p).key());
    };
    switch (x.kind) {
      case 0: if (what == 0) { if (&++*x.u != &*x.u) old = -2; } else note((*x.u)++); break;
      case 2: if (what == 0) { if (&++*x.uc != &*x.uc) old = -2; } else note((*x.uc)++); break;
      case 1:
        if (what == 0) { if (&++*x.o != &*x.o) old = -2; } else if (what == 1) note((*x.o)++);
        else if (what == 2) { if (&--*x.o != &*x.o) old = -2; } else { if (x.k == 0) { (*x.o)--; } else note((*x.o)--); }
        break;
      case 3:
        if (what == 0) { if (&++*x.oc != &*x.oc) old = -2; } else if (what == 1) note((*x.oc)++);
        else if (what == 2) { if (&--*x.oc != &*x.oc) old = -2; } else { if (x.k == 0) { (*x.oc)--; } else note((*x.oc)--); }
        break;
    }
    position(x);
    e.n = x.k;
    e.r = {old};
  });
}

// An entry agrees with the pairs that hold the same and with no others.
template <typename E>
static auto converted(E& p, int) -> decltype(std::pair<const K&, typename E::ValueType&>(p), int()) {
  std::pair<const K&, typename E::ValueType&> q = p;
  return &q.first == &p.key() && &q.second == &p.value();
}
template <typename E>
static int converted(E&, long) { return 1; }
template <typename E>
static vector<long> compared(E& p, int) {
  const E& q = p;
  int k = T::kid(p.key()), v = T::vid(p.value());
  const Pair same(T::key(k), T::value(v)), other(T::key(k), T::value(v + 1)), another(T::key(k + 1), T::value(v));
  bool fine = p == same && same == p && !(p != same) && !(same != p);
  for (auto* o : {&other, &another}) fine = fine && p != *o && *o != p && !(p == *o) && !(*o == p);
  LRU::Entry<K, const V> r = p;
  fine = fine && &r.key() == &p.key() && &r.value() == &p.value() && r == same && converted(p, 0);
  fine = fine && &q.key() == &p.first && &q.value() == &p.second;
  return {k, v, fine};
}

static void op_hderef(Ev& e) {  // h form: 0 *h, 1 h->, 2 key(), 3 value(), 4 entry()
  int h = e.a[0], form = e.a[1];
  if (!hok(h)) { e.log = false; return; }
  Handle& x = hand[h];
  if ((form < 2 || form == 5) && x.k == 0) { e.log = false; return; }
  guarded(e, [&] {
    visit(x, [&](auto& it) {
      switch (form) {
        case 0: { auto& p = lib([&]() -> decltype(auto) { return *it; }); e.r = {T::kid(p.key()), T::vid(p.value())}; break; }
        case 1: { auto* p = lib([&] { return it.operator->(); }); e.r = {T::kid(p->first), T::vid(p->second)}; break; }
        case 2: { e.r = {T::kid(lib([&]() -> decltype(auto) { return it.key(); }))}; break; }
        case 3: { e.r = {T::vid(lib([&]() -> decltype(auto) { return it.value(); }))}; break; }
        case 4: { auto& p = lib([&]() -> decltype(auto) { return it.entry(); }); e.r = {T::kid(p.key()), T::vid(p.value())}; break; }
        case 5: { e.r = compared(*it, 0); break; }
        case 6: { e.r = compared(it.entry(), 0); break; }
        default: e.log = false;
      }
    });
  });
}

static void op_hwrite(Ev& e) {  // h v form: 0 (*h).value(), 1 h.value(), 2 h->second
  int h = e.a[0], v = e.a[1], form = e.a[2];
  if (!hok(h)) { e.log = false; return; }
  Handle& x = hand[h];
  if (x.kind > 1) { e.log = false; return; }
  if (form != 1 && x.k == 0) { e.log = false; return; }
  auto value = T::value(v);
  guarded(e, [&] {
    auto w = [&](auto& it) {
      auto& place = lib([&]() -> V& {
        if (form == 0) return (*it).value();
        else if (form == 1) return it.value();
        else return it->second;
      });
      place = value;
    };
    if (x.kind == 0) w(*x.u); else w(*x.o);
  });
}

static void op_hvalid(Ev& e) {  // h form: 0 is_valid, 1 throw_if_invalid, 2 has_expired
  int h = e.a[0], form = e.a[1];
  if (!hok(h)) { e.log = false; return; }
  Handle& x = hand[h];
  const C& c = *slot[x.c];
  guarded(e, [&] {
    visit(x, [&](auto& it) {
      if (form == 0) e.n = lib([&] { return c.is_valid(it); });
      else if (form == 1) lib([&] { c.throw_if_invalid(it); });
      else {
        IF_TIMED(e.n = lib([&] { return c.has_expired(it); });)
        IF_UNTIMED(e.log = false;)
      }
    });
  });
}

static void op_herase(Ev& e) {
  int h = e.a[0];
  if (!hok(h)) { e.log = false; return; }
  Handle& x = hand[h];
  C& c = *slot[x.c];
  int ci = x.c, k = x.k;
  e.r = {ci, k};
  guarded(e, [&] { visit(x, [&](auto& it) { lib([&] { c.erase(it); }); }); });
  if (k && e.x.empty()) drop_key(ci, k);
}

static void op_hconv(Ev& e) {  // h -> g: unordered to ordered, same constness or to const
  int h = e.a[0], g = e.a[1], form = e.a[2];
  if (!hok(h) || g < 1 || g > NHAND || h == g) { e.log = false; return; }
  Handle& x = hand[h];
  Handle n;
  n.c = x.c;
  n.shy = g % 2 == 0;
  guarded(e, [&] {
    // moves of a copy that has been dereferenced
    auto moved = [&](auto& target, auto copy) {
      using I = std::decay_t<decltype(*target)>;
      if (x.k) *copy;
      target.reset(new I(lib([&] { return I(std::move(copy)); })));
    };
    switch (form < 10 ? x.kind * 10 + form : 100 * form + x.kind) {
      case 1000: n.kind = 1; moved(n.o, *x.u); break;
      case 1100: n.kind = 3; moved(n.oc, *x.u); break;
      case 1200: n.kind = 2; moved(n.uc, *x.u); break;
      case 1002: n.kind = 3; moved(n.oc, *x.uc); break;
      case 1001: n.kind = 3; moved(n.oc, *x.o); break;
      case 1300: n.kind = 0; moved(n.u, *x.u); break;
      case 1301: n.kind = 1; moved(n.o, *x.o); break;
      case 1302: n.kind = 2; moved(n.uc, *x.uc); break;
      case 1303: n.kind = 3; moved(n.oc, *x.oc); break;
      case 1700: n.kind = 2; { auto t = *x.u; if (x.k) *t; n.uc.reset(new C::UnorderedConstIterator(cc(x.c).unordered_begin())); if (slot[x.c]->size()) **n.uc; lib([&] { *n.uc = std::move(t); }); } break;
      case 1701: n.kind = 3; { auto t = *x.o; if (x.k) *t; n.oc.reset(new C::OrderedConstIterator(cc(x.c).ordered_begin())); if (slot[x.c]->size()) **n.oc; lib([&] { *n.oc = std::move(t); }); } break;
      case 0: n.kind = 1; n.o.reset(new C::OrderedIterator(*x.u)); break;
      case 1: n.kind = 3; n.oc.reset(new C::OrderedConstIterator(*x.u)); break;
      case 2: n.kind = 2; n.uc.reset(new C::UnorderedConstIterator(*x.u)); break;
      case 20: n.kind = 3; n.oc.reset(new C::OrderedConstIterator(*x.uc)); break;
      case 10: n.kind = 3; n.oc.reset(new C::OrderedConstIterator(*x.o)); break;
      // copies
      case 3: n.kind = 0; n.u.reset(new C::UnorderedIterator(*x.u)); break;
      case 13: n.kind = 1; n.o.reset(new C::OrderedIterator(*x.o)); break;
      case 23: n.kind = 2; n.uc.reset(new C::UnorderedConstIterator(*x.uc)); break;
      case 33: n.kind = 3; n.oc.reset(new C::OrderedConstIterator(*x.oc)); break;
      // assignment over another position
      case 4: n.kind = 0; n.u.reset(new C::UnorderedIterator(slot[x.c]->unordered_begin())); if (slot[x.c]->size()) **n.u; *n.u = *x.u; break;
      case 14: n.kind = 1; n.o.reset(new C::OrderedIterator(slot[x.c]->ordered_begin())); if (slot[x.c]->size()) **n.o; *n.o = *x.o; break;
      case 24: n.kind = 2; n.uc.reset(new C::UnorderedConstIterator(cc(x.c).unordered_begin())); if (slot[x.c]->size()) **n.uc; *n.uc = *x.uc; break;
      case 34: n.kind = 3; n.oc.reset(new C::OrderedConstIterator(cc(x.c).ordered_begin())); if (slot[x.c]->size()) **n.oc; *n.oc = *x.oc; break;
      // assignment to an iterator that denotes nothing yet
      case 5: n.kind = 0; n.u.reset(new C::UnorderedIterator()); *n.u = *x.u; break;
      case 15: n.kind = 1; n.o.reset(new C::OrderedIterator()); *n.o = *x.o; break;
      case 25: n.kind = 2; n.uc.reset(new C::UnorderedConstIterator()); *n.uc = *x.uc; break;
      case 35: n.kind = 3; n.oc.reset(new C::OrderedConstIterator()); *n.oc = *x.oc; break;
      // moves from a copy, over another position
      case 6: n.kind = 0; { auto t = *x.u; if (x.k) *t; n.u.reset(new C::UnorderedIterator(std::move(t))); } break;
      case 16: n.kind = 1; { auto t = *x.o; if (x.k) *t; n.o.reset(new C::OrderedIterator(slot[x.c]->ordered_end())); *n.o = std::move(t); } break;
      case 26: n.kind = 2; { auto t = *x.uc; if (x.k) *t; n.uc.reset(new C::UnorderedConstIterator(cc(x.c).unordered_end())); *n.uc = std::move(t); } break;
      case 36: n.kind = 3; { auto t = *x.oc; if (x.k) *t; n.oc.reset(new C::OrderedConstIterator(std::move(t))); } break;
      // assignment to a const iterator, which may have been dereferenced before
      case 7: n.kind = 2; n.uc.reset(new C::UnorderedConstIterator(cc(x.c).unordered_begin())); if (slot[x.c]->size()) **n.uc; *n.uc = *x.u; break;
      case 17: n.kind = 3; n.oc.reset(new C::OrderedConstIterator(cc(x.c).ordered_begin())); if (slot[x.c]->size()) **n.oc; *n.oc = *x.o; break;
      default: e.log = false; return;
    }
    position(n);
    n.on = true;
    e.n = n.k;
    hand[g] = std::move(n);
  });
}

static void op_hswap(Ev& e) {  // h g form: 0 member, 1 by name lookup, 2 std::swap
  int h = e.a[0], g = e.a[1], form = e.a[2];
  if (!hok(h) || !hok(g) || h == g || hand[h].kind != hand[g].kind) { e.log = false; return; }
  Handle& x = hand[h];
  Handle& y = hand[g];
  guarded(e, [&] {
    auto exchange = [&](auto& p, auto& q) {
      if (form == 0) p.swap(q);
      else if (form == 1) { using std::swap; swap(p, q); }
      else std::swap(p, q);
    };
    switch (x.kind) {
      case 0: exchange(*x.u, *y.u); break;
      case 1: exchange(*x.o, *y.o); break;
      case 2: exchange(*x.uc, *y.uc); break;
      case 3: exchange(*x.oc, *y.oc); break;
    }
    std::swap(x.c, y.c);
    position(x);
    position(y);
    e.r = {x.k, y.k};
  });
}

static void op_heq(Ev& e) {  // h g: == and != in both directions
  int h = e.a[0], g = e.a[1];
  if (!hok(h) || !hok(g)) { e.log = false; return; }
  Handle& x = hand[h];
  Handle& y = hand[g];
  // of different caches only iterators of different sorts may be compared
  if (x.c != y.c && x.kind % 2 == y.kind % 2) { e.log = false; return; }
  guarded(e, [&] {
    auto cmp = [&](auto& p, auto& q) {
      bool r[4];
      lib([&] { r[0] = p == q; r[1] = p != q; r[2] = q == p; r[3] = q != p; });
      e.r = {r[0], r[1], r[2], r[3]};
    };
    switch (x.kind * 10 + y.kind) {
      case 0: cmp(*x.u, *y.u); break;
      case 1: cmp(*x.u, *y.o); break;
      case 10: cmp(*x.o, *y.u); break;
      case 11: cmp(*x.o, *y.o); break;
      case 22: cmp(*x.uc, *y.uc); break;
      case 23: cmp(*x.uc, *y.oc); break;
      case 32: cmp(*x.oc, *y.uc); break;
      case 33: cmp(*x.oc, *y.oc); break;
      default: e.log = false;
    }
  });
}

static void op_front(Ev& e) {
  int c = e.a[0], form = e.a[1];
  if (!alive(c)) { e.log = false; return; }
  IF_TIMED(e.log = false;)
  IF_UNTIMED(guarded(e, [&] { e.n = T::kid(form == 0 ? cc(c).front() : cc(c).back()); });)
}

static void op_expiry(Ev& e) {  // c what k: 0 clear_expired, 1 all_expired, 2/5 has_expired(key), 3/4 by iterator
  int c = e.a[0], what = e.a[1], k = e.a[2];
  if (!alive(c)) { e.log = false; return; }
#if !TIMED
  e.log = false;
#else
    C& x = *slot[c];
    const auto own = T::key(k);
    const K& key = what == 5 ? stored(x, own) : own;
    if (what == 5) e.a[1] = 2;
    guarded(e, [&] {
      auto seek = [&](auto it, auto end) { while (it != end && !x.key_equal()((*it).key(), key)) ++it; return it; };
      switch (what) {
        case 0: e.n = lib([&] { return x.clear_expired(); }); break;
        case 1: e.n = lib([&] { return cc(c).all_expired(); }); break;
        case 2: case 5: e.n = lib([&] { return cc(c).has_expired(key); }); break;
        case 3: { auto it = seek(x.ordered_begin(), x.ordered_end()); e.n = lib([&] { return x.has_expired(it); }); break; }
        case 4: { auto it = seek(x.unordered_begin(), x.unordered_end()); e.n = lib([&] { return x.has_expired(it); }); break; }
        default: e.log = false;
      }
    });
#endif
}

static void op_eq(Ev& e) {
  int a = e.a[0], b = e.a[1];
  if (!alive(a) || !alive(b)) { e.log = false; return; }
  guarded(e, [&] {
    bool r[4];
    lib([&] { r[0] = cc(a) == cc(b); r[1] = cc(a) != cc(b); r[2] = cc(b) == cc(a); r[3] = cc(b) != cc(a); });
    e.r = {r[0], r[1], r[2], r[3]};
  });
}

static void reset_world() {
  for (auto& h : hand) h = Handle();
  for (auto& s : slot) s.reset();
  stats_objs.clear();
  fired.clear();
  for (auto& p : places) p.clear();
  vclock::steady_ns = 1000000000000000LL;
  vclock::system_ns = 1500000000000000000LL;
#ifndef THREADED   // where objects are not counted
  live_keys = live_vals = bad_objects = 0;
#endif
  fault::copies_left = fault::allocs_left = 0;
  observe_on = true;
}

static void run(Ev& e) {
  const string& op = e.op;
  auto need = [&](size_t n) { while (e.a.size() < n) e.a.push_back(0); };
  need(op == "new" ? 6 : 5);
  if (op == "new") { identity = use_custom ? e.a[4] : 0; op_new(e); }
  else if (op == "asg") op_assign(e);
  else if (op == "copy") op_copy(e);
  else if (op == "move") op_move(e);
  else if (op == "swap") op_swap(e);
  else if (op == "del") { if (!alive(e.a[0])) { e.log = false; } else { drop_handles(e.a[0]); slot[e.a[0]].reset(); } }
  else if (op == "ins") op_insert(e);
  else if (op == "insr") op_insert_range(e);
  else if (op == "acc") op_acc(e);
  else if (op == "acn") op_acc_many(e);
  else if (op == "wr") op_write(e);
  else if (op == "era") op_erase(e);
  else if (op == "erai") op_erase_it(e);
  else if (op == "clr") { if (!alive(e.a[0])) e.log = false; else { drop_handles(e.a[0]); guarded(e, [&] { lib([&] { slot[e.a[0]]->clear(); }); }); } }
  else if (op == "shr") { if (!alive(e.a[0])) e.log = false; else guarded(e, [&] { lib([&] { slot[e.a[0]]->shrink(size_for(e.a[1])); }); }); }
  else if (op == "cap") { if (!alive(e.a[0])) e.log = false; else guarded(e, [&] { lib([&] { slot[e.a[0]]->capacity(size_for(e.a[1])); }); }); }
  else if (op == "mon") op_monitor(e);
  else if (op == "stp") { if (!alive(e.a[0])) e.log = false; else guarded(e, [&] { lib([&] { slot[e.a[0]]->stop_monitoring(); }); }); }
  else if (op == "sta") op_stats(e);
  else if (op == "sop") op_sop(e);
  else if (op == "cb") op_cb(e);
  else if (op == "ccb") op_clrcb(e);
  else if (op == "hget") op_hget(e);
  else if (op == "hmov") op_hmove(e);
  else if (op == "hder") op_hderef(e);
  else if (op == "hwr") op_hwrite(e);
  else if (op == "hval") op_hvalid(e);
  else if (op == "hera") op_herase(e);
  else if (op == "hcnv") op_hconv(e);
  else if (op == "heq") op_heq(e);
  else if (op == "hswp") op_hswap(e);
  else if (op == "fro") op_front(e);
  else if (op == "exp") op_expiry(e);
  else if (op == "eq") op_eq(e);
  else if (op == "tick") vclock::steady_ns += e.a[0] * tick_ns;
  else if (op == "sysj") vclock::system_ns += (long long)e.a[0] * 1000000000LL;
  else if (op == "nop") {}
  else { fprintf(stderr, "unknown op %s\n", op.c_str()); _exit(3); }
}

// Runs a script, recording to out.
static int perform(std::istream& in, FILE* to, volatile long* progress) {
  out = to;
  string line;
  long number = 0;
  int fcopy = 0, falloc = 0;
  while (std::getline(in, line)) {
    progress[0] = ++number;
    std::istringstream ss(line);
    Ev e;
    ss >> e.op;
    if (e.op.empty()) continue;
    if (e.op == "E") {  // episode: id tick_ns universe custom
      long id, tn; int u, cu;
      ss >> id >> tn >> u >> cu;
      reset_world();
      tick_ns = tn; universe = u; use_custom = cu;
      fcopy = falloc = 0;
      fprintf(out, "E %ld\n", id);
      continue;
    }
    if (e.op == "O") { int v; ss >> v; observe_on = v; continue; }
    if (e.op == "F") { ss >> fcopy >> falloc; continue; }  // faults for the next operation
    string w;
    while (ss >> w) {
      if (w == "|") break;
      e.a.push_back(atoi(w.c_str()));
    }
    int p, q;
    while (ss >> p >> q) e.l.push_back({p, q});
    fault::copies_left = fcopy;
    fault::allocs_left = falloc;
    fault::fired = false;
    fault::cost = fault::hashes = 0;
    // time may pass while the operation is running: after so many readings of the clock
    vclock::pending_ns = 0;
    if (e.op == "acc" && e.a.size() >= 5) vclock::pass(e.a[3] * tick_ns, e.a[4]);
    if ((e.op == "ins" || e.op == "wr") && e.a.size() >= 5) vclock::pass(e.a[4] * tick_ns, 1);
    relay::turn(line, [&] { run(e); });
    vclock::arrive();
    fault::copies_left = fault::allocs_left = 0;
    fcopy = falloc = 0;
    if (e.x == "Fault") { e.n = 0; e.r.clear(); }
    sweep();
    if (e.log) emit(e);
    else fired.clear();
  }
  reset_world();
  fclose(out);
  progress[1] = 1;
  return 0;
}

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  std::ifstream in(argv[1]);
  int fd = open(argv[3], O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (!in || fd < 0 || ftruncate(fd, 4096)) return 2;
  auto* progress = static_cast<volatile long*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  return in_threads(in, argv[2], progress, argc > 4 ? atoi(argv[4]) : 1, perform);
}
