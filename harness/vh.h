// Common runtime for the monitoring harnesses: seeded PRNG, violation reporting, coverage accounting.
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  using result_type = uint64_t;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ull; }
  uint64_t operator()() { return next(); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) {  // inclusive
    uint64_t span = (uint64_t)hi - (uint64_t)lo + 1;
    return (int64_t)((uint64_t)lo + (span ? next() % span : next()));
  }
  bool chance(int pct) { return below(100) < (uint64_t)pct; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  template <class T>
  T pick(std::initializer_list<T> v) {
    return *(v.begin() + below(v.size()));
  }
};

inline uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h ^ (h >> 29);
}

inline std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r;
}

struct State {
  uint64_t seed = 1;
  int shard = 0;
  int shards = 1;
  bool thorough = false;
  std::string mode;
  long only_case = -1;
  std::string out;
  FILE* f = nullptr;
  char* lastcase = nullptr;
  std::atomic<uint64_t> evals{0};
  std::mutex m;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> events;
  std::vector<std::string> samples;
  std::map<std::string, int> viol;
  int nviol = 0;
};
inline State& st() {
  static State* s = new State();
  return *s;
}

inline void init(int argc, char** argv) {
  auto& s = st();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") s.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--shard") s.shard = atoi(val().c_str());
    else if (a == "--shards") s.shards = atoi(val().c_str());
    else if (a == "--tier") s.thorough = val() == "thorough";
    else if (a == "--out") s.out = val();
    else if (a == "--case") s.only_case = atol(val().c_str());
    else s.mode = a;
  }
  if (!s.out.empty()) {
    s.f = fopen(s.out.c_str(), "w");
    int fd = open((s.out + ".last").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, 8192) == 0) {
      void* p = mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) s.lastcase = (char*)p;
    }
    if (fd >= 0) close(fd);
  }
  if (!s.f) s.f = stdout;
}

// A PRNG for case number n of this shard: reproducible on its own.
inline Rng case_rng(uint64_t n) {
  auto& s = st();
  return Rng(s.seed * 1000003ull + s.shard * 7919ull + n * 104729ull * 65537ull + hash_str(s.mode));
}

// Text of what is being exercised now; survives a crash of the process.
inline void note(const std::string& txt) {
  auto& s = st();
  if (s.lastcase) {
    size_t n = std::min<size_t>(txt.size(), 8000);
    memcpy(s.lastcase, txt.data(), n);
    s.lastcase[n] = 0;
  }
}

inline void violation(const std::string& key, const std::string& detail) {
  auto& s = st();
  std::lock_guard<std::mutex> g(s.m);
  int& c = s.viol[key];
  s.nviol++;
  if (c++ >= 3) return;
  fprintf(s.f, "{\"violation\":{\"key\":\"%s\",\"detail\":\"%s\"}}\n", jesc(key).c_str(), jesc(detail.substr(0, 4000)).c_str());
  fflush(s.f);
}
inline bool too_many() { return st().nviol > 200; }

inline void ev(const std::string& name, uint64_t n = 1) {
  auto& s = st();
  std::lock_guard<std::mutex> g(s.m);
  s.events[name] += n;
}
inline void eval(uint64_t n = 1) { st().evals += n; }
inline void distinct(uint64_t h) {
  auto& s = st();
  std::lock_guard<std::mutex> g(s.m);
  if (s.distinct.size() < 2000000) s.distinct.insert(h);
}
inline void distinct(const std::string& x) { distinct(hash_str(x)); }
inline void sample(const std::string& x, size_t max = 4) {
  auto& s = st();
  std::lock_guard<std::mutex> g(s.m);
  if (s.samples.size() < max) s.samples.push_back(x.substr(0, 600));
}

inline int finish() {
  auto& s = st();
  std::string r = "{\"done\":true,\"evaluations\":" + std::to_string(s.evals.load()) + ",\"events\":{";
  bool first = true;
  for (auto& [k, v] : s.events) {
    r += (first ? "\"" : ",\"") + jesc(k) + "\":" + std::to_string(v);
    first = false;
  }
  r += "},\"samples\":[";
  for (size_t i = 0; i < s.samples.size(); ++i) r += (i ? ",\"" : "\"") + jesc(s.samples[i]) + "\"";
  r += "]}\n";
  fputs(r.c_str(), s.f);
  fflush(s.f);
  if (!s.out.empty()) {
    FILE* h = fopen((s.out + ".hash").c_str(), "wb");
    for (uint64_t x : s.distinct) fwrite(&x, 8, 1, h);
    fclose(h);
  }
  fflush(nullptr);
  _exit(0);
}

template <class... A>
std::string cat(const A&... a) {
  std::ostringstream o;
  o.precision(17);
  (o << ... << a);
  return o.str();
}

inline std::string show(const std::string& s) {
  std::string r = "'";
  for (unsigned char c : s) {
    char b[8];
    if (c < 0x20 || c >= 0x7f) {
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r + "'";
}

}  // namespace vh

#define VH_EXPECT(cond, key, ...)                   \
  do {                                              \
    if (!(cond)) vh::violation(key, vh::cat(__VA_ARGS__)); \
  } while (0)
