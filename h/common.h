// Shared by all vs-based harness binaries: argument parsing, statistics, reporting.
#pragma once
#include "../rt/vs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

struct Args {
  std::map<std::string, std::string> m;
  Args(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      if (a.compare(0, 2, "--")) continue;
      size_t e = a.find('=');
      if (e == std::string::npos) m[a.substr(2)] = "1"; else m[a.substr(2, e - 2)] = a.substr(e + 1);
    }
  }
  std::string s(const char* k, const char* d = "") const { auto i = m.find(k); return i == m.end() ? d : i->second; }
  long n(const char* k, long d) const { auto i = m.find(k); return i == m.end() ? d : strtol(i->second.c_str(), nullptr, 0); }
  bool has(const char* k) const { return m.count(k) != 0; }
};
inline std::vector<std::string> split(const std::string& s, char c = ',') {
  std::vector<std::string> v; size_t p = 0;
  while (p <= s.size()) { size_t e = s.find(c, p); if (e == std::string::npos) e = s.size(); if (e > p) v.push_back(s.substr(p, e - p)); p = e + 1; }
  return v;
}
struct Cov {
  std::map<std::string, uint64_t> c;
  std::unordered_set<uint64_t> scheds, states;
  std::vector<std::string> samples;
  void add(const std::string& k, uint64_t v = 1) { c[k] += v; }
};
extern Cov cov;
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) { const unsigned char* b = (const unsigned char*)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001B3ull; return h; }
std::string strf(const char* f, ...) __attribute__((format(printf, 1, 2)));

// Runs fn(exec) for exec in [start, execs); each with its own rng seed.
struct Shard { uint64_t seed; long start, execs, trace_at; int shard; std::string tag; double until; };
extern long cur_exec;
extern std::vector<std::string> evlog;     // event log of the current execution
void ev(const char* f, ...) __attribute__((format(printf, 1, 2)));
void shard_begin(const Args& a, Shard& s);
bool exec_begin(const Shard& s, long e);  // false: time budget used up
void shard_end(const Args& a);
inline vs::Rng exec_rng(const Shard& s, long e) { return vs::Rng(s.seed * 1000003ull + (uint64_t)s.shard * 7919ull + fnv(s.tag.data(), s.tag.size()) + (uint64_t)e * 0x9E3779B97F4A7C15ull); }
