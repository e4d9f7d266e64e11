// Operations on runs of keys in caches of up to hundreds of thousands of
// entries, recorded in runs (see spec/Bulk.tla).
//
//   bulk_driver SCRIPT OUT PROGRESS
//
// Compiled once per instantiation (VARIANT).
#include "vclock.hpp"

#include "lru/lru.hpp"

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

using std::string;
using std::vector;

static long alive_keys = 0, alive_values = 0;
struct TKey {
  int id;
  explicit TKey(int i) : id(i) { ++alive_keys; }
  TKey(const TKey& o) : id(o.id) { ++alive_keys; }
  TKey& operator=(const TKey& o) = default;
  ~TKey() { --alive_keys; }
};
inline bool operator==(const TKey& a, const TKey& b) { return a.id == b.id; }   // of statistics
namespace std { template <> struct hash<TKey> { size_t operator()(const TKey& k) const { return size_t(k.id); } }; }
struct TValue {
  int id;
  explicit TValue(int i) : id(i) { ++alive_values; }
  TValue(const TValue& o) : id(o.id) { ++alive_values; }
  TValue& operator=(const TValue& o) = default;
  ~TValue() { --alive_values; }
  bool operator==(const TValue& o) const { return id == o.id; }
  bool operator!=(const TValue& o) const { return id != o.id; }
};
struct THash {
  size_t salt = 0;
  size_t operator()(const TKey& k) const { return size_t(unsigned(k.id)) * 40503u + salt; }
};
struct TEqual {
  bool operator()(const TKey& a, const TKey& b) const { return a.id == b.id; }
};

// Keys and values of the caches for those of the scripts, and back.
#if VARIANT == 0     // as they are
using K = int; using V = int;
static K key(long k) { return int(k); }
static long key_of(const K& k) { return k; }
#elif VARIANT == 1   // strings
using K = string; using V = string;
static K key(long k) { return "key number " + std::to_string(k); }
static long key_of(const K& k) { return atol(k.c_str() + 11); }
#elif VARIANT == 2   // scattered
using K = int; using V = int;
static K key(long k) { return int(unsigned(k) * 2654435761u); }
static long key_of(const K& k) { return long(int(unsigned(k) * 244002641u)); }
#else
using K = TKey; using V = TValue;
static K key(long k) { return TKey(int(k)); }
static long key_of(const K& k) { return k.id; }
#endif
#if VARIANT == 1
static V value(long v) { return std::to_string(v) + " is a value that is not small"; }
static long value_of(const V& v) { return atol(v.c_str()); }
#elif VARIANT == 3 || VARIANT == 4
static V value(long v) { return TValue(int(v)); }
static long value_of(const V& v) { return v.id; }
#else
static V value(long v) { return int(v); }
static long value_of(const V& v) { return v; }
#endif
#if VARIANT == 0 || VARIANT == 1
using C = LRU::Cache<K, V>;
#elif VARIANT == 2
using C = LRU::TimedCache<K, V, std::chrono::milliseconds>;
#elif VARIANT == 3
using C = LRU::Cache<K, V, THash, TEqual>;
#else
using C = LRU::TimedCache<K, V, std::chrono::milliseconds, THash, TEqual>;
#endif
#if VARIANT == 2 || VARIANT == 4
#define TIMED 1
#else
#define TIMED 0
#endif
#if VARIANT == 3 || VARIANT == 4
#define TRACKED 1
#else
#define TRACKED 0
#endif
using S = LRU::Statistics<K>;

static long epoch = 0;
static long evaluations = 0;
#if TRACKED
using Wrapped = std::function<int(int)>;
#else
using Wrapped = std::function<V(K)>;
#endif

static const int SLOTS = 4;
static std::unique_ptr<C> slot[SLOTS + 1];
static Wrapped wrapped[SLOTS + 1];
static vector<std::shared_ptr<S>> stats;
static std::set<long> watched;    // keys monitored at some time
static long fired[3];
static vector<std::pair<long, const void*>> places[SLOTS + 1];   // values of the entries, by key

// Runs of keys, and what they have in common.
template <size_t N>
struct Runs {
  vector<std::array<long, N + 2>> all;
  void add(long k, std::array<long, N> rest) {
    if (!all.empty() && all.back()[0] + all.back()[1] == k && std::equal(rest.begin(), rest.end(), all.back().begin() + 2)) {
      ++all.back()[1];
      return;
    }
    std::array<long, N + 2> r;
    r[0] = k;
    r[1] = 1;
    std::copy(rest.begin(), rest.end(), r.begin() + 2);
    all.push_back(r);
  }
  string str() const {
    string s = "[";
    for (size_t i = 0; i < all.size(); ++i) {
      s += i ? ",[" : "[";
      for (size_t j = 0; j < N + 2; ++j) s += (j ? "," : "") + std::to_string(all[i][j]);
      s += "]";
    }
    return s + "]";
  }
};

static C* make(long ttl, int form, size_t cap, const vector<std::pair<K, V>>& range) {
#if TIMED
  const std::chrono::milliseconds t(ttl);
  switch (form) {
    case 0: return new C(t, cap);
    case 1: return new C(t, cap, range);
    case 2: return new C(t, cap, range.begin(), range.end());
    case 3: return new C(t, range);
    case 4: return new C(t, range.begin(), range.end());
    default: { auto copy = range; return new C(t, std::move(copy)); }
  }
#else
  (void)ttl;
  switch (form) {
    case 0: return new C(cap);
    case 1: return new C(cap, range);
    case 2: return new C(cap, range.begin(), range.end());
    case 3: return new C(range);
    case 4: return new C(range.begin(), range.end());
    default: { auto copy = range; return new C(std::move(copy)); }
  }
#endif
}

static vector<std::pair<K, V>> pairs(long k, long n, long d) {
  vector<std::pair<K, V>> r;
  r.reserve(n);
  for (long i = k; i < k + n; ++i) r.emplace_back(key(i), value(i + d));
  return r;
}

// Lists have to have a length known to the compiler: one of these.
using List = std::initializer_list<std::pair<K, V>>;
template <size_t... I>
static void as_list(const vector<std::pair<K, V>>& p, const std::function<void(List)>& f, std::index_sequence<I...>) { f({p[I]...}); }
static bool with_list(const vector<std::pair<K, V>>& p, const std::function<void(List)>& f) {
  switch (p.size()) {
    case 3: as_list(p, f, std::make_index_sequence<3>()); return true;
    case 20: as_list(p, f, std::make_index_sequence<20>()); return true;
    case 65: as_list(p, f, std::make_index_sequence<65>()); return true;
    case 130: as_list(p, f, std::make_index_sequence<130>()); return true;
    case 300: as_list(p, f, std::make_index_sequence<300>()); return true;
    default: return false;
  }
}

struct Result {
  string x;
  long n = 0;
  Runs<1> r;
};

// Fills by a list, if there can be one.
static bool fill_by_list(C& c, long k, long n, long d, Result& res) {
  return with_list(pairs(k, n, d), [&](List l) { res.n = c.insert(l); });
}

static void fill(C& c, long k, long n, long d, int form, Result& res) {
  switch (form) {
    case 0: for (long i = k; i < k + n; ++i) res.n += c.insert(key(i), value(i + d)).was_inserted(); break;
    case 1: for (long i = k; i < k + n; ++i) res.n += c.emplace(key(i), value(i + d)).was_inserted(); break;
    case 2: { auto p = pairs(k, n, d); res.n = c.insert(p.begin(), p.end()); break; }
    case 3: { auto p = pairs(k, n, d); res.n = c.insert(p); break; }
    case 4: { auto p = pairs(k, n, d); res.n = c.insert(std::move(p)); break; }
    default: for (long i = k; i < k + n; ++i) {
      const K y = key(i);
      const V v = value(i + d);
      res.n += c.emplace(std::piecewise_construct, std::forward_as_tuple(y), std::forward_as_tuple(v)).was_inserted();
    }
  }
}

static void look(C& c, long k, long n, int form, Result& res) {
  const C& y = c;
  auto found = [&](long i, const V& v) { ++res.n; res.r.add(i, {value_of(v) - i}); };
  for (long i = k; i < k + n; ++i) {
    const K q = key(i);
    switch (form) {
      case 0: { auto it = c.find(q); if (it != c.end()) found(i, it.value()); break; }
      case 1: { auto it = y.find(q); if (it != y.end()) found(i, it.value()); break; }
      case 2: try { found(i, c.lookup(q)); } catch (LRU::Error::KeyNotFound&) {} catch (LRU::Error::KeyExpired&) {} break;
      case 3: try { found(i, y.lookup(q)); } catch (LRU::Error::KeyNotFound&) {} catch (LRU::Error::KeyExpired&) {} break;
      case 4: try { found(i, c[q]); } catch (LRU::Error::KeyNotFound&) {} catch (LRU::Error::KeyExpired&) {} break;
      default: try { found(i, y[q]); } catch (LRU::Error::KeyNotFound&) {} catch (LRU::Error::KeyExpired&) {} break;
    }
  }
}

// contains() tells no value: that is read while iterating.
static void ask(C& c, long k, long n, Result& res) {
  vector<bool> there(n);
  for (long i = 0; i < n; ++i) there[i] = c.contains(key(k + i));
  vector<long> v(n);
  for (auto& p : c) {
    const long i = key_of(p.first) - k;
    if (i >= 0 && i < n) v[i] = value_of(p.second) - i - k;
  }
  for (long i = 0; i < n; ++i) if (there[i]) { ++res.n; res.r.add(k + i, {v[i]}); }
}

static void remove(C& c, long k, long n, int form, Result& res) {
  auto among = [&](const K& x) { const long i = key_of(x); return i >= k && i < k + n; };
  switch (form) {
    case 0: for (long i = k; i < k + n; ++i) res.n += c.erase(key(i)); break;
    case 1: for (long i = k + n - 1; i >= k; --i) res.n += c.erase(key(i)); break;
    case 2: for (auto it = c.ordered_begin(); it != c.ordered_end();) {
      auto here = it++;
      if (among((*here).key())) { c.erase(here); ++res.n; }
    }
    break;
    default: for (auto it = c.unordered_begin(); it != c.unordered_end();) {
      auto here = it++;
      if (among((*here).key())) { c.erase(here); ++res.n; }
    }
  }
}

static string observed(int s, bool compare, bool& agree) {
  C& c = *slot[s];
  const C& y = c;
  Runs<2> in;
  vector<std::array<long, 3>> forth;
  vector<std::pair<long, const void*>> now;
  for (auto it = c.ordered_begin(); it != c.ordered_end(); ++it) {
    const long k = key_of((*it).key());
    const V& v = (*it).value();
    long dead = 0;
#if TIMED
    dead = c.has_expired(it);
#endif
    in.add(k, {value_of(v) - k, dead});
    forth.push_back({k, value_of(v), dead});
    now.emplace_back(k, &v);
  }
  // backwards, and in no order
  size_t at = forth.size();
  bool back = true;
  if (at) {
    auto it = y.ordered_cend();
    while (at > 0 && back) {
      --it;
      --at;
      back = key_of((*it).key()) == forth[at][0];
    }
    back = back && it == y.ordered_cbegin();
  }
  vector<std::array<long, 3>> some;
  for (auto it = y.unordered_cbegin(); it != y.unordered_cend(); ++it) {
    const long k = key_of((*it).key());
    long dead = 0;
#if TIMED
    dead = y.has_expired((*it).key());
#endif
    some.push_back({k, value_of((*it).value()), dead});
  }
  auto sorted = forth;
  std::sort(sorted.begin(), sorted.end());
  std::sort(some.begin(), some.end());
  std::sort(now.begin(), now.end());
  long moved = 0;
  if (compare) {
    auto& was = places[s];
    for (size_t i = 0, j = 0; i < was.size() && j < now.size();) {
      if (was[i].first < now[j].first) ++i;
      else if (now[j].first < was[i].first) ++j;
      else { moved += was[i].second != now[j].second; ++i; ++j; }
    }
  }
  places[s].swap(now);
  long front = 0, last = 0;
#if !TIMED
  if (!y.is_empty()) { front = key_of(y.front()); last = key_of(y.back()); }
#endif
  long mon = 0;
  if (y.is_monitoring())
    for (size_t i = 0; i < stats.size(); ++i) if (stats[i].get() == &y.stats()) mon = long(i) + 1;
  agree = some == sorted;
  std::ostringstream o;
  o << "{\"c\":" << s << ",\"rs\":" << in.str() << ",\"cap\":" << y.capacity() << ",\"sz\":" << y.size() << ",\"sp\":" << y.space_left()
    << ",\"em\":" << y.is_empty() << ",\"fu\":" << y.is_full() << ",\"bk\":" << back << ",\"un\":" << agree << ",\"fr\":" << front
    << ",\"ba\":" << last << ",\"mv\":" << moved << ",\"mon\":" << mon << ",\"cb\":[" << y.hit_callbacks().size() << ","
    << y.miss_callbacks().size() << "," << y.access_callbacks().size() << "]}";
  return o.str();
}

static string observe(bool compare) {
  string o, again;
  const long before = fired[0] + fired[1] + fired[2];
  for (int s = 1; s <= SLOTS; ++s) {
    if (!slot[s]) { places[s].clear(); continue; }
    bool agree;
    if (!o.empty()) o += ",";
    o += observed(s, compare, agree);
  }
  string st;
  for (auto& p : stats) {
    Runs<2> km;
    for (long k : watched) {
      const K q = key(k);
      if (!p->is_monitoring(q)) continue;
      const auto& ks = p->stats_for(q);
      km.add(k, {long(ks.hits), long(ks.misses)});
    }
    st += string(st.empty() ? "" : ",") + "{\"h\":" + std::to_string(p->total_hits()) + ",\"m\":" + std::to_string(p->total_misses()) +
          ",\"acc\":" + std::to_string(p->total_accesses()) + ",\"nm\":" + std::to_string(p->number_of_monitored_keys()) +
          ",\"km\":" + km.str() + "}";
  }
  const bool quiet = before == fired[0] + fired[1] + fired[2];
  std::ostringstream r;
  r << "\"o\":[" << o << "],\"s\":[" << st << "],\"q\":" << quiet << ",\"lv\":[" << (TRACKED ? alive_keys : -1) << ","
    << (TRACKED ? alive_values : -1) << "]";
  return r.str();
}

static void start_over() {
  for (int s = 1; s <= SLOTS; ++s) { slot[s].reset(); wrapped[s] = nullptr; places[s].clear(); }
  stats.clear();
  watched.clear();
  fired[0] = fired[1] = fired[2] = 0;
  vclock::steady_ns = 1000000000000000LL;
}

static void call(int s, long k, long n, long d, Result& res) {
  epoch = d;
  evaluations = 0;
  for (long i = k; i < k + n; ++i) {
#if TRACKED
    const long v = wrapped[s](int(i));
#else
    const long v = value_of(wrapped[s](key(i)));
#endif
    res.r.add(i, {v - i});
  }
  res.n = evaluations;
}

static void wrap(int s, long ttl, size_t cap) {
#if TRACKED
  auto f = [](int i) -> int { ++evaluations; return int(i + epoch); };
#else
  auto f = [](K q) -> V { ++evaluations; return value(key_of(q) + epoch); };
#endif
#if TIMED
  wrapped[s] = LRU::timed_wrap(f, std::chrono::milliseconds(ttl), cap);
#else
  (void)ttl;
  wrapped[s] = LRU::wrap(f, cap);
#endif
}

// Does it, if it can be done: the operands are there.
static bool perform(const string& op, const vector<long>& a, int form, Result& res) {
  auto is = [&](size_t i) { return a.size() > i && a[i] >= 1 && a[i] <= SLOTS && slot[a[i]]; };
  auto none = [&](size_t i) { return a.size() > i && a[i] >= 1 && a[i] <= SLOTS && !slot[a[i]] && !wrapped[a[i]]; };
  if (op == "tick") { vclock::steady_ns += a[0] * 1000000LL; return true; }
  if (op == "nop") return true;
  if (op == "new") {
    if (!none(0)) return false;
    const auto range = pairs(a[4], a[5], a[6]);
    if (a[2] < 6) { slot[a[0]].reset(make(a[1], int(a[2]), size_t(a[3]), range)); return true; }
    const size_t cap = size_t(a[3]);
#if TIMED
    const std::chrono::milliseconds t(a[1]);
    if (a[2] == 6) return with_list(range, [&](List l) { slot[a[0]].reset(new C(t, cap, l)); });
    return with_list(range, [&](List l) { slot[a[0]].reset(new C(t, l)); });
#else
    if (a[2] == 6) return with_list(range, [&](List l) { slot[a[0]].reset(new C(cap, l)); });
    return with_list(range, [&](List l) { slot[a[0]].reset(new C(l)); });
#endif
  }
  if (op == "wrap") { if (!none(0)) return false; wrap(int(a[0]), a[1], size_t(a[2])); return true; }
  if (op == "call") { if (a[0] < 1 || a[0] > SLOTS || !wrapped[a[0]]) return false; call(int(a[0]), a[1], a[2], a[3], res); return true; }
  if (op == "del") {
    if (a[0] < 1 || a[0] > SLOTS || none(0)) return false;
    slot[a[0]].reset();
    wrapped[a[0]] = nullptr;
    return true;
  }
  if (op == "copy") {
    if (!is(1) || a[0] == a[1] || wrapped[a[0]]) return false;
    if (slot[a[0]]) *slot[a[0]] = static_cast<const C&>(*slot[a[1]]);
    else slot[a[0]].reset(new C(static_cast<const C&>(*slot[a[1]])));
    return true;
  }
  if (op == "move") {
    if (!is(1) || a[0] == a[1] || wrapped[a[0]]) return false;
    if (slot[a[0]]) *slot[a[0]] = std::move(*slot[a[1]]);
    else slot[a[0]].reset(new C(std::move(*slot[a[1]])));
    slot[a[1]].reset();
    return true;
  }
  if (!is(0)) return false;
  C& c = *slot[a[0]];
  if (op == "swap" || op == "eq") {
    if (!is(1)) return false;
    C& d = *slot[a[1]];
    if (op == "eq") {
      const bool same = c == d, other = c != d;
      res.n = same;
      if (same == other) res.x = "Neither";
    } else if (form) swap(c, d);
    else c.swap(d);
  }
  else if (op == "asg") {
    auto p = pairs(a[1], a[2], a[3]);
    if (form == 2) { if (!with_list(p, [&](List l) { c = l; })) return false; }
    else if (form == 1) c = std::move(p);
    else c = static_cast<const vector<std::pair<K, V>>&>(p);
  }
  else if (op == "fil" && form == 6) { if (!fill_by_list(c, a[1], a[2], a[3], res)) return false; }
  else if (op == "fil") fill(c, a[1], a[2], a[3], form, res);
  else if (op == "lok") { if (form == 6) ask(c, a[1], a[2], res); else look(c, a[1], a[2], form, res); }
  else if (op == "rem") remove(c, a[1], a[2], form, res);
  else if (op == "shr") c.shrink(size_t(a[1]));
  else if (op == "cap") c.capacity(size_t(a[1]));
  else if (op == "clr") c.clear();
#if TIMED
  else if (op == "cex") res.n = long(c.clear_expired());
  else if (op == "aex") res.n = c.all_expired();
#endif
  else if (op == "mon") {
    auto st = std::make_shared<S>();
    for (long i = a[1]; i < a[1] + a[2]; ++i) { st->monitor(key(i)); watched.insert(i); }
    c.monitor(st);
    stats.push_back(st);
  }
  else if (op == "stp") c.stop_monitoring();
  else if (op == "sop") {
    if (!c.is_monitoring()) return false;
    S& st = c.stats();
    if (a[1] == 0) { for (long i = a[2]; i < a[2] + a[3]; ++i) { st.monitor(key(i)); watched.insert(i); } }
    else if (a[1] == 1) { for (long i = a[2]; i < a[2] + a[3]; ++i) if (st.is_monitoring(key(i))) st.unmonitor(key(i)); }
    else if (a[1] == 2) st.reset_all();
    else st.unmonitor_all();
  }
  else if (op == "cb") {
    for (long i = 0; i < a[2]; ++i) {
      if (a[1] == 0) c.hit_callback(std::function<void(const K&, const V&)>([](const K&, const V&) { fired[0] += 1; }));
      else if (a[1] == 1) c.miss_callback(std::function<void(const K&)>([](const K&) { fired[1] += 1; }));
      else c.access_callback(std::function<void(const K&, bool)>([](const K&, bool) { fired[2] += 1; }));
    }
  }
  else if (op == "ccb") { if (a[1] == 0) c.clear_hit_callbacks(); else if (a[1] == 1) c.clear_miss_callbacks(); else c.clear_access_callbacks(); }
  else return false;
  return true;
}

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  std::ifstream in(argv[1]);
  FILE* out = fopen(argv[2], "w");
  int fd = open(argv[3], O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (!in || !out || fd < 0 || ftruncate(fd, 4096)) return 2;
  auto* progress = static_cast<volatile long*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  string line, op;
  long number = 0;
  while (std::getline(in, line)) {
    progress[0] = ++number;
    std::istringstream ss(line);
    if (!(ss >> op)) continue;
    if (op == "E") {
      long id;
      ss >> id;
      start_over();
      fprintf(out, "E %ld\n", id);
      continue;
    }
    vector<long> a;
    for (long v; ss >> v;) a.push_back(v);
    int form = 0;     // how it is done is the last operand, where there is a choice
    if (op == "fil" || op == "lok" || op == "rem" || op == "swap" || op == "asg") { form = int(a.back()); a.pop_back(); }
    Result res;
    const std::array<long, 3> before{fired[0], fired[1], fired[2]};
    bool can = true;
    try {
      can = perform(op, a, form, res);
    } catch (const std::exception& e) {
      res.x = "Exception";
    }
    if (!can) continue;
    const std::array<long, 3> f{fired[0] - before[0], fired[1] - before[1], fired[2] - before[2]};
    string args;
    for (long v : a) args += (args.empty() ? "" : ",") + std::to_string(v);
    const bool whole = op == "new" || op == "asg" || op == "copy" || op == "move" || op == "swap" || op == "del";
    fprintf(out, "{\"op\":\"%s\",\"a\":[%s],\"x\":\"%s\",\"n\":%ld,\"r\":%s,\"f\":[%ld,%ld,%ld],%s}\n", op.c_str(), args.c_str(), res.x.c_str(),
            res.n, res.r.str().c_str(), f[0], f[1], f[2], observe(!whole).c_str());
    fflush(out);
  }
  start_over();
  fclose(out);
  progress[1] = 1;
  return 0;
}
