// Explicit-state exploration engine.
//
// A harness registers one Job per (configuration, phase).  A job enumerates a
// finite, stated set of states (bit patterns) and executes operations of the
// real library (transitions) on them; every transition is compared with the
// reference model.  The engine shards jobs over threads, counts what was
// executed, keeps the first counterexample per (configuration, operation), and
// can restrict the same enumeration to one recorded counterexample (replay).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <thread>
#include <mutex>
#include <atomic>
#include <algorithm>

namespace mc {

typedef unsigned __int128 key_t;

struct Cur { // what a thread is executing, for crash and hang reports
  const char *cfg; const char *op; int64_t a[3]; int n; bool active;
};
enum { MAXT = 64 };
extern Cur g_cur[MAXT];

struct Viol { std::string cfg, op, detail; int64_t a[3]; int n; unsigned long long weight; long count; };

inline std::vector<std::string> &opnames() { static std::vector<std::string> v; return v; }
inline std::mutex &opmx() { static std::mutex m; return m; }
inline int opid(const char *s) {
  std::lock_guard<std::mutex> l(opmx());
  auto &v = opnames();
  for (size_t i = 0; i < v.size(); i++) if (v[i] == s) return (int)i;
  v.push_back(s);
  return (int)v.size() - 1;
}

struct Ctx {
  std::string cfg;
  int tid = 0, slice = 0, nslices = 1;
  bool replay = false, thorough = false;
  int64_t ra[3] = {0, 0, 0}; int rn = 0;
  std::string rop;
  unsigned long long states = 0, transitions = 0, traces = 0, skipped = 0;
  std::vector<unsigned long long> opcount;
  std::map<std::pair<std::string, std::string>, Viol> viol;
  std::set<int64_t> hits; unsigned long long outcomes = 0;
  std::vector<uint64_t> hitmap; int hitbits = 0;
  std::vector<std::string> samples;
  Cur *cur = nullptr;

  // state sets: the whole set when exploring, the recorded element on replay
  std::vector<int64_t> S1(const std::vector<int64_t> &all) {
    if (replay) return std::vector<int64_t>(1, ra[0]);
    std::vector<int64_t> r;
    for (size_t i = slice; i < all.size(); i += nslices) r.push_back(all[i]);
    states += r.size();
    return r;
  }
  std::vector<int64_t> S2(const std::vector<int64_t> &all) { return pick(all, 1, t2); }
  std::vector<int64_t> S3(const std::vector<int64_t> &all) { return pick(all, 2, t3); }
  std::vector<int64_t> t2, t3;
  const std::vector<int64_t> &pick(const std::vector<int64_t> &all, int k, std::vector<int64_t> &tmp) {
    if (!replay) return all;
    tmp.assign(1, ra[k]);
    return tmp;
  }
  // a contiguous range [lo,hi] of first operands, split over slices
  template <class F> void range(int64_t lo, int64_t hi, F f) {
    if (replay) { f(ra[0]); return; }
    unsigned __int128 n = (unsigned __int128)((s128_t)hi - lo) + 1;
    unsigned __int128 b = n * slice / nslices, e = n * (slice + 1) / nslices;
    states += (unsigned long long)(e - b);
    for (unsigned __int128 i = b; i < e; i++) f((int64_t)(lo + (s128_t)i));
  }
  typedef __int128 s128_t;

  void at(int64_t a) { traces++; cur->a[0] = a; cur->n = 1; }
  void at(int64_t a, int64_t b) { traces++; cur->a[0] = a; cur->a[1] = b; cur->n = 2; }
  void at(int64_t a, int64_t b, int64_t c) { traces++; cur->a[0] = a; cur->a[1] = b; cur->a[2] = c; cur->n = 3; }

  void hit(int64_t v) { // distinct outcomes observed (small results only)
    if (hitmap.empty()) hitmap.assign(1024, 0);
    uint16_t k = (uint16_t)v;
    hitmap[k >> 6] |= (uint64_t)1 << (k & 63);
  }
  inline void count(int id) {
    if ((size_t)id >= opcount.size()) opcount.resize(id + 1, 0);
    opcount[id]++; transitions++;
    if (transitions == next_sample) { next_sample *= 1013; sample(id); }
  }
  unsigned long long next_sample = 1;
  void sample(int id) {
    std::string s; { std::lock_guard<std::mutex> l(opmx()); s = opnames()[id]; }
    s += "(";
    for (int i = 0; i < cur->n; i++) s += (i ? ", " : "") + std::to_string((long long)cur->a[i]);
    samples.push_back(s + ")");
  }
  const std::set<std::string> *known = nullptr; std::set<std::string> known_hit;
  void fail(const char *op, const std::string &detail) {
    if (known && !known->empty()) { // findings recorded in KNOWN_FINDINGS.txt, by exact identity
      std::string s = cfg + "|" + op + "|";
      for (int i = 0; i < cur->n; i++) s += (i ? "," : "") + std::to_string((long long)cur->a[i]);
      if (known->count(s)) { known_hit.insert(s); return; }
    }
    std::pair<std::string, std::string> k(cfg, op);
    unsigned long long w = 0;
    for (int i = 0; i < cur->n; i++) { uint64_t x = (uint64_t)(cur->a[i] < 0 ? -(cur->a[i] + 1) : cur->a[i]); w += x >> 1; }
    auto it = viol.find(k);
    if (it == viol.end() || w < it->second.weight) {
      Viol v; v.cfg = cfg; v.op = op; v.detail = detail; v.n = cur->n; v.weight = w;
      v.count = it == viol.end() ? 0 : it->second.count;
      for (int i = 0; i < 3; i++) v.a[i] = cur->a[i];
      viol[k] = v;
    }
    viol[k].count++;
  }
};

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
}
#include <cstdarg>
namespace mc {
inline std::string fmt(const char *f, ...) {
  char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

// one checked transition: OP is executed before (its result is in the operands
// of ok); name the operation first with MC_OP so a crash inside it is attributed
#define MC_OP(ctx, name) ((ctx).cur->op = (name))
#define MC_CK(ctx, name, ok, ...)                                             \
  do {                                                                        \
    static const int mc_id_ = mc::opid(name);                                 \
    (ctx).count(mc_id_);                                                      \
    (ctx).cur->op = (name);                                                   \
    if (!(ok)) (ctx).fail(name, mc::fmt(__VA_ARGS__));                        \
  } while (0)

struct Job { std::string cfg; std::function<void(Ctx &)> run; int weight; bool thorough_only; };
inline std::vector<Job> &jobs() { static std::vector<Job> v; return v; }
// weight: number of slices the job is split in
inline void add(const std::string &cfg, int slices, std::function<void(Ctx &)> f, bool thorough_only = false) {
  Job j; j.cfg = cfg; j.run = f; j.weight = slices; j.thorough_only = thorough_only; jobs().push_back(j);
}

int main_(int argc, char **argv, const char *property);
} // namespace mc
