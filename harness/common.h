// Shared driver framework: deterministic case generation, event/violation log.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "mdf/mdflogstream.h"

namespace vh {

inline uint64_t Mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const auto* b = static_cast<const uint8_t*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ULL;
  return h;
}
inline uint64_t HashStr(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  return HashBytes(s.data(), s.size(), h);
}

class Rng {
 public:
  explicit Rng(uint64_t seed) : s_(Mix(seed)) {}
  uint64_t U64() { return Mix(s_++ * 0x9e3779b97f4a7c15ULL ^ (s_ << 17)); }
  uint64_t Below(uint64_t n) { return n == 0 ? 0 : U64() % n; }
  int64_t Range(int64_t lo, int64_t hi) {  // inclusive
    return lo + static_cast<int64_t>(Below(static_cast<uint64_t>(hi - lo) + 1));
  }
  bool Chance(double p) { return (U64() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double Unit() { return (U64() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T>
  const T& Pick(const std::vector<T>& v) { return v[Below(v.size())]; }
  template <class T>
  T Pick(std::initializer_list<T> v) { return *(v.begin() + Below(v.size())); }
  // Size with a heavy tail: mostly small, sometimes up to max.
  uint64_t Tail(uint64_t max) {
    const int bits = 64 - __builtin_clzll(max | 1);
    const uint64_t m = 1ULL << Below(bits + 1);
    const uint64_t v = Below(m + 1);
    return v > max ? max : v;
  }
 private:
  uint64_t s_;
};

inline std::string JsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o;
}

inline std::string Hex(const void* p, size_t n, size_t max = 24) {
  static const char* d = "0123456789abcdef";
  std::string o;
  const auto* b = static_cast<const uint8_t*>(p);
  for (size_t i = 0; i < n && i < max; ++i) { o += d[b[i] >> 4]; o += d[b[i] & 15]; }
  if (n > max) o += "...(" + std::to_string(n) + ")";
  return o;
}

class Out {
 public:
  void Open(const std::string& f) { fd_ = ::open(f.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); }
  void Line(const std::string& s) {
    std::string l = s + "\n";
    size_t off = 0;
    while (off < l.size()) {
      ssize_t n = ::write(fd_, l.data() + off, l.size() - off);
      if (n <= 0) break;
      off += static_cast<size_t>(n);
    }
  }
 private:
  int fd_ = 2;
};

struct Ctx {
  Out* out = nullptr;
  std::string prop, scratch, tier;
  uint64_t seed = 1, index = 0;
  Rng rng{0};
  std::map<std::string, int64_t>* counters = nullptr;
  std::set<std::string> keys;   // violation keys of this case
  std::string shape;            // case signature: what makes it distinct
  bool nontrivial = false;
  std::string sample;           // human readable description of the case
  int nviol = 0;
  bool thorough() const { return tier == "thorough"; }
  void Count(const std::string& k, int64_t n = 1) { (*counters)[k] += n; }
  // key: stable short identification of what failed; msg: details
  void Viol(const std::string& key, const std::string& msg) {
    ++nviol;
    if (!keys.insert(key).second || keys.size() > 8) return;
    out->Line("{\"ev\":\"viol\",\"case\":" + std::to_string(index) + ",\"key\":\"" + JsonEsc(key) +
              "\",\"msg\":\"" + JsonEsc(msg.substr(0, 1500)) + "\"}");
  }
  std::string Path(const std::string& name) const { return scratch + "/" + name; }
  // Clean the scratch directory of this process
  void Wipe() const {
    std::error_code ec;
    for (const auto& e : std::filesystem::directory_iterator(scratch, ec))
      std::filesystem::remove_all(e.path(), ec);
  }
};

extern const char* kPropId;
void RunCase(Ctx& ctx);          // provided by each driver

extern std::atomic<uint64_t> g_log_errors;
extern bool g_verbose;
}  // namespace vh

// Worker period hook in the library (weak: the harness also works without it).
extern std::atomic<unsigned> mdflib_verif_flush_period_ms __attribute__((weak));
namespace vh {
inline bool SetFlushPeriod(unsigned ms) {
  if (&mdflib_verif_flush_period_ms == nullptr) return false;
  mdflib_verif_flush_period_ms.store(ms);
  return true;
}
}
