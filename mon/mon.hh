// Runtime of the monitors: arguments, random numbers, verdicts, coverage counters.
// A driver registers families of cases; a case is determined by (seed, family, index).
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>

namespace mon {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char *c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}
inline uint64_t hash_str(std::string const &s) { return hash_bytes(s.data(), s.size()); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix(seed)) {}
  uint64_t next() { return mix(s++ * 0x2545F4914F6CDD1DULL + 0x1234567ULL); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }       // [0,1)
  double u(double a, double b) { return a + (b - a) * u(); }
  double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
  int i(int a, int b) { return int(a + int64_t(next() % uint64_t(int64_t(b) - a + 1))); }    // [a,b]
  bool p(double q) { return u() < q; }
  double sgn() { return (next() & 1) ? 1.0 : -1.0; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + i(0, int(l.size()) - 1)); }
  template <class T> void shuffle(std::vector<T> &v) {
    for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[size_t(next() % k)]);
  }
};

inline std::string jstr(std::string const &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}
inline std::string num(double x) { char b[40]; std::snprintf(b, sizeof b, "%.17g", x); return b; }

struct Mon {
  // arguments
  uint64_t seed = 1;
  bool thorough = false, verbose = false;
  int shard = 0, shards = 1;
  double scale = 1.0;              // scales the number of cases
  std::string out, scratch = ".", repo = "/repo";
  std::string only_family; long only_case = -1;
  std::set<std::string> families;  // restrict to these families
  // state
  std::string family; long idx = -1;
  std::function<std::string()> describe;
  long evaluations = 0, violations = 0;
  std::map<std::string, long> count;
  std::map<std::string, double> maxv;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  FILE *f = nullptr;
  int progress_fd = -1;
  std::map<std::string, int> per_kind;

  void open() {
    f = std::fopen(out.c_str(), "w");
    if (!f) { std::perror("out"); std::exit(3); }
    progress_fd = ::open((out + ".progress").c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
  }
  void mark() {
    char b[160];
    int n = std::snprintf(b, sizeof b, "%s %ld%*s\n", family.c_str(), idx, int(60 - family.size()), "");
    if (progress_fd >= 0) { ssize_t r = ::pwrite(progress_fd, b, size_t(n), 0); (void)r; }
  }
  void emit(std::string const &line) { std::fputs(line.c_str(), f); std::fputc('\n', f); std::fflush(f); }

  // A violation of the property. kind: which observation was wrong.
  void fail(std::string const &kind, std::string const &msg, std::string const &known = "") {
    ++violations;
    if (++per_kind[kind + known] > 5) return;
    std::string d;
    try { if (describe) d = describe(); } catch (...) { d = "(no description)"; }
    if (d.size() > 3000) d = d.substr(0, 3000) + "...";
    emit("{\"t\":\"violation\",\"kind\":" + jstr(kind) + ",\"family\":" + jstr(family) + ",\"case\":" + std::to_string(idx) +
         ",\"known\":" + jstr(known) + ",\"msg\":" + jstr(msg) + ",\"input\":" + jstr(d) + "}");
    if (verbose) std::fprintf(stderr, "VIOLATION %s %s#%ld: %s\n  %s\n", kind.c_str(), family.c_str(), idx, msg.c_str(), d.c_str());
  }
  void seen(std::string const &k, long n = 1) { count[k] += n; }
  void peak(std::string const &k, double v) { double &m = maxv[k]; if (v > m) m = v; }
  // One monitored evaluation; nontrivial evaluations are deduplicated by fingerprint.
  void eval(uint64_t fingerprint, bool nontrivial) {
    ++evaluations;
    if (nontrivial && distinct.size() < 400000) distinct.insert(fingerprint);
  }
  void sample(std::function<std::string()> const &s) {
    if (samples.size() < 2) samples.push_back(s());
  }

  bool close_to(double a, double b, double tol) const { return std::fabs(a - b) <= tol || (std::isnan(a) && std::isnan(b)); }

  uint64_t case_seed() const { return mix(mix(seed) ^ hash_str(family) ^ mix(uint64_t(idx) + 77)); }

  // Run n (scaled) cases of a family, sharded.
  void run(std::string const &name, long quick, long thoroughN, std::function<void(Rng &)> body) {
    if (!only_family.empty() && only_family != name) return;
    if (!families.empty() && !families.count(name)) return;
    long n = long(double(thorough ? thoroughN : quick) * scale);
    if (n < 1) n = 1;
    family = name;
    for (long i = 0; i < n; ++i) {
      if (only_case >= 0) { if (i > 0) break; i = only_case; }
      else if (i % shards != shard) continue;
      idx = i;
      describe = nullptr;
      mark();
      Rng r(case_seed());
      try { body(r); }
      catch (std::exception const &e) { fail("exception", std::string("unexpected exception: ") + e.what()); }
      catch (...) { fail("exception", "unexpected exception of unknown type"); }
      seen("cases:" + name);
      if (only_case >= 0) break;
    }
    describe = nullptr;
  }

  int finish() {
    std::string s = "{\"t\":\"summary\",\"evaluations\":" + std::to_string(evaluations) + ",\"violations\":" + std::to_string(violations);
    s += ",\"distinct\":[";
    bool first = true; size_t k = 0;
    for (uint64_t h : distinct) { if (++k > 400000) break; s += (first ? "" : ",") + std::to_string(h >> 12); first = false; }
    s += "],\"count\":{"; first = true;
    for (auto &c : count) { s += (first ? "" : ",") + jstr(c.first) + ":" + std::to_string(c.second); first = false; }
    s += "},\"max\":{"; first = true;
    for (auto &c : maxv) if (std::isfinite(c.second)) { s += (first ? "" : ",") + jstr(c.first) + ":" + num(c.second); first = false; }
    s += "},\"samples\":["; first = true;
    for (auto &c : samples) { s += (first ? "" : ",") + jstr(c); first = false; }
    s += "]}";
    emit(s);
    std::fclose(f);
    return 0;
  }

  static std::vector<std::string> split(std::string const &s, char c) {
    std::vector<std::string> o; std::stringstream ss(s); std::string t;
    while (std::getline(ss, t, c)) if (!t.empty()) o.push_back(t);
    return o;
  }
  void parse(int argc, char **argv) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto val = [&]() -> std::string { if (i + 1 >= argc) { std::fprintf(stderr, "missing value for %s\n", a.c_str()); std::exit(3); } return argv[++i]; };
      if (a == "--seed") seed = std::strtoull(val().c_str(), nullptr, 10);
      else if (a == "--thorough") thorough = true;
      else if (a == "--shard") { auto p = split(val(), '/'); shard = std::atoi(p[0].c_str()); shards = std::atoi(p[1].c_str()); }
      else if (a == "--out") out = val();
      else if (a == "--scratch") scratch = val();
      else if (a == "--repo") repo = val();
      else if (a == "--scale") scale = std::atof(val().c_str());
      else if (a == "--family") only_family = val();
      else if (a == "--families") { for (auto &x : split(val(), ',')) families.insert(x); }
      else if (a == "--case") only_case = std::atol(val().c_str());
      else if (a == "--verbose") verbose = true;
      else { std::fprintf(stderr, "unknown argument %s\n", a.c_str()); std::exit(3); }
    }
    if (out.empty()) out = "mon.out.jsonl";
    open();
  }
};

// Silences std::cout (mesh loading prints progress).
struct Quiet {
  std::ostringstream sink; std::streambuf *old;
  Quiet() : old(std::cout.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(old); }
};

} // namespace mon
