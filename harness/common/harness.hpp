// Common driver of all monitors: deterministic cases, verdict log, coverage counters.
#pragma once
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf {

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) {
    next();
    next();
  }
  std::uint64_t next() {
    s += 0x9E3779B97F4A7C15ULL;
    std::uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  std::size_t below(std::size_t n) { return n == 0 ? 0 : next() % n; }
  // inclusive
  std::size_t range(std::size_t a, std::size_t b) { return a + below(b - a + 1); }
  double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uniform(double a, double b) { return a + (b - a) * unit(); }
  bool chance(double p) { return unit() < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template <class T> void shuffle(std::vector<T>& v) {
    for (std::size_t i = v.size(); i > 1; --i) {
      std::swap(v[i - 1], v[below(i)]);
    }
  }
  std::vector<std::size_t> perm(std::size_t n) {
    std::vector<std::size_t> p(n);
    for (std::size_t i = 0; i < n; ++i) {
      p[i] = i;
    }
    shuffle(p);
    return p;
  }
};

inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
  Rng r(a ^ (b * 0xD6E8FEB86659FD93ULL));
  return r.next();
}
inline std::uint64_t hashStr(const std::string& s) {
  std::uint64_t h = 1469598103934665603ULL;
  for (const unsigned char c : s) {
    h = (h ^ c) * 1099511628211ULL;
  }
  return h;
}

inline std::string jsonEsc(const std::string& s) {
  std::string o;
  for (const unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c == '\t') {
      o += "\\t";
    } else if (c < 32 || c > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

// thrown to end a case that is outside the monitored domain
struct Skip {};

struct Ctx;
// set up by headers with global state of their own
inline void (*beforeCase)(Ctx&) = nullptr;
struct Ctx {
  Rng rng{0};
  std::string suite;
  std::uint64_t caseSeed = 0;
  std::size_t index = 0;      // in the global sequence of the run
  std::size_t local = 0;      // within the suite
  bool thorough = false;
  bool verbose = false;
  std::string desc;          // description of the case, used for samples and replays
  std::string fingerprint;   // what makes the case distinct
  bool nontrivial = true;
  std::map<std::string, std::uint64_t> counters;
  std::set<std::uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string, int> perKey;
  std::uint64_t evaluations = 0;
  std::uint64_t violations = 0;
  FILE* out = nullptr;

  void count(const std::string& k, std::uint64_t n = 1) { counters[k] += n; }
  void fail(const std::string& key, const std::string& detail) {
    ++violations;
    if (++perKey[key] <= 3) {
      std::fprintf(out,
                   "{\"v\":\"%s\",\"suite\":\"%s\",\"case\":%zu,\"seed\":\"%llu\",\"detail\":\"%s\",\"input\":\"%s\"}\n",
                   jsonEsc(key).c_str(), jsonEsc(suite).c_str(), index,
                   static_cast<unsigned long long>(caseSeed), jsonEsc(detail.substr(0, 1500)).c_str(),
                   jsonEsc(desc.substr(0, 4000)).c_str());
      std::fflush(out);
    }
    if (verbose) {
      std::cerr << "FAIL " << key << ": " << detail << "\n" << desc << "\n";
    }
  }
  bool check(bool ok, const std::string& key, const std::string& detail = "") {
    count("checks");
    if (!ok) {
      fail(key, detail);
    }
    return ok;
  }
};

struct Suite {
  std::string name;
  std::size_t quick;     // number of cases, quick tier
  std::size_t thorough;  // number of cases, thorough tier
  std::function<void(Ctx&)> run;
  bool fixedInputs = false; // cases do not depend on the seed: index only
};

struct Progress {
  std::uint64_t idx;
  std::uint64_t seed;
  std::uint64_t done;
  char suite[64];
  char desc[8192];
};

inline Progress*& progressPtr() {
  static Progress* p = nullptr;
  return p;
}
// makes the case's input available to the driver should the process die
inline void announce(Ctx& c, const std::string& desc) {
  c.desc = desc;
  if (auto* p = progressPtr(); p != nullptr) {
    const auto n = std::min(desc.size(), sizeof(p->desc) - 1);
    std::memcpy(p->desc, desc.data(), n);
    p->desc[n] = 0;
  }
}

inline int runMain(int argc, char** argv, const std::string& property, const std::vector<Suite>& suites) {
  std::map<std::string, std::string> a;
  for (int i = 1; i < argc; ++i) {
    std::string k = argv[i];
    if (k.rfind("--", 0) == 0 && i + 1 < argc && std::string(argv[i + 1]).rfind("--", 0) != 0) {
      a[k.substr(2)] = argv[i + 1];
      ++i;
    } else {
      a[k.substr(2)] = "1";
    }
  }
  const std::uint64_t seed = a.count("seed") ? std::stoull(a["seed"]) : 1;
  const bool thorough = a.count("tier") && a["tier"] == "thorough";
  const std::size_t shard = a.count("shard") ? std::stoull(a["shard"]) : 0;
  const std::size_t nshards = a.count("nshards") ? std::stoull(a["nshards"]) : 1;
  const std::size_t start = a.count("start") ? std::stoull(a["start"]) : 0;
  const double scale = a.count("scale") ? std::stod(a["scale"]) : 1.0;
  Ctx ctx;
  ctx.thorough = thorough;
  ctx.verbose = a.count("verbose") != 0;
  ctx.out = a.count("out") ? std::fopen(a["out"].c_str(), "a") : stdout;
  if (ctx.out == nullptr) {
    return 3;
  }
  if (a.count("progress")) {
    const int fd = ::open(a["progress"].c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ::ftruncate(fd, sizeof(Progress)) != 0) {
      return 3;
    }
    auto* m = ::mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m == MAP_FAILED) {
      return 3;
    }
    progressPtr() = static_cast<Progress*>(m);
  }
  // one global sequence of cases, interleaving the suites
  struct Item {
    std::size_t suite;
    std::size_t idx;
    double key;
  };
  std::vector<Item> seq;
  for (std::size_t s = 0; s < suites.size(); ++s) {
    if (a.count("suite") && a["suite"] != suites[s].name) {
      continue;
    }
    std::size_t n = thorough ? suites[s].thorough : suites[s].quick;
    if (!suites[s].fixedInputs) {
      n = static_cast<std::size_t>(std::ceil(static_cast<double>(n) * scale));
    }
    for (std::size_t i = 0; i < n; ++i) {
      seq.push_back({s, i, (static_cast<double>(i) + 0.5) / static_cast<double>(n)});
    }
  }
  std::stable_sort(seq.begin(), seq.end(), [](const Item& x, const Item& y) { return x.key < y.key; });
  std::map<std::string, std::uint64_t> perSuite;
  for (std::size_t i = start; i < seq.size(); ++i) {
    if (i % nshards != shard) {
      continue;
    }
    const auto& su = suites[seq[i].suite];
    const std::uint64_t cs =
        su.fixedInputs ? seq[i].idx : mix(mix(seed, hashStr(property + su.name)), seq[i].idx);
    if (a.count("case") && std::to_string(cs) != a["case"]) {
      continue;
    }
    ctx.suite = su.name;
    ctx.caseSeed = cs;
    ctx.index = i;
    ctx.local = seq[i].idx;
    ctx.rng = Rng(cs);
    ctx.desc.clear();
    ctx.fingerprint.clear();
    ctx.nontrivial = true;
    if (auto* p = progressPtr(); p != nullptr) {
      p->idx = i;
      p->seed = cs;
      std::snprintf(p->suite, sizeof p->suite, "%s", su.name.c_str());
      p->desc[0] = 0;
    }
    if (beforeCase != nullptr) {
      beforeCase(ctx);
    }
    try {
      su.run(ctx);
      ++ctx.evaluations;
      ++perSuite[su.name];
      if (ctx.nontrivial) {
        ctx.distinct.insert(hashStr(su.name + "|" + (ctx.fingerprint.empty() ? ctx.desc : ctx.fingerprint)));
        if (ctx.samples.size() < 40 && !ctx.desc.empty() && perSuite[su.name] <= 1) {
          ctx.samples.push_back(su.name + ": " + ctx.desc.substr(0, 600));
        }
      }
    } catch (const Skip&) {
      ctx.count("skipped:" + su.name);
    } catch (const std::exception& e) {
      ctx.fail("unexpected-exception:" + su.name, e.what());
    }
    if (auto* p = progressPtr(); p != nullptr) {
      p->done = i + 1;
    }
  }
  std::fprintf(ctx.out, "{\"stat\":1,\"total\":%zu,\"evaluations\":%llu,\"violations\":%llu,\"suites\":{", seq.size(),
               static_cast<unsigned long long>(ctx.evaluations), static_cast<unsigned long long>(ctx.violations));
  bool first = true;
  for (const auto& [k, v] : perSuite) {
    std::fprintf(ctx.out, "%s\"%s\":%llu", first ? "" : ",", jsonEsc(k).c_str(), static_cast<unsigned long long>(v));
    first = false;
  }
  std::fprintf(ctx.out, "},\"counters\":{");
  first = true;
  for (const auto& [k, v] : ctx.counters) {
    std::fprintf(ctx.out, "%s\"%s\":%llu", first ? "" : ",", jsonEsc(k).c_str(), static_cast<unsigned long long>(v));
    first = false;
  }
  std::fprintf(ctx.out, "},\"samples\":[");
  first = true;
  for (const auto& s : ctx.samples) {
    std::fprintf(ctx.out, "%s\"%s\"", first ? "" : ",", jsonEsc(s).c_str());
    first = false;
  }
  std::fprintf(ctx.out, "],\"distinct\":[");
  first = true;
  for (const auto h : ctx.distinct) {
    std::fprintf(ctx.out, "%s\"%llx\"", first ? "" : ",", static_cast<unsigned long long>(h));
    first = false;
  }
  std::fprintf(ctx.out, "]}\n");
  std::fflush(ctx.out);
  return 0;
}

template <class... T> std::string cat(const T&... t) {
  std::ostringstream o;
  o.precision(17);
  (o << ... << t);
  return o.str();
}
} // namespace vf
