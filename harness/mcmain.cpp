#include "mc.hpp"
namespace mc {
Cur g_cur[MAXT];

static void dump(int sig) { // async-signal-safe enough: fixed buffer, write(2)
  char b[400];
  for (int t = 0; t < MAXT; t++) {
    Cur &c = g_cur[t];
    if (!c.active) continue;
    int n = snprintf(b, sizeof b, "CRASH\t%d\t%s\t%s\t%d\t%lld\t%lld\t%lld\n", sig, c.cfg ? c.cfg : "?", c.op ? c.op : "?", c.n, (long long)c.a[0], (long long)c.a[1], (long long)c.a[2]);
    if (write(1, b, n) < 0) {}
  }
}
static void onsig(int sig) { dump(sig); _exit(3); }

static std::string js(const std::string &s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

int main_(int argc, char **argv, const char *property) {
  (void)property;
  bool thorough = false, replay = false; Ctx proto; int nthreads = (int)std::thread::hardware_concurrency();
  if (nthreads < 1) nthreads = 1;
  if (nthreads > MAXT) nthreads = MAXT;
  std::string only; std::set<std::string> known, known_hit;
  for (int i = 1; i < argc; i++) {
    std::string s = argv[i];
    if (s == "--thorough") thorough = true;
    else if (s == "--threads") nthreads = atoi(argv[++i]);
    else if (s == "--known") known.insert(argv[++i]);
    else if (s == "--only") only = argv[++i];
    else if (s == "--replay") { // --replay CFG OP n a b c
      replay = true; only = argv[++i]; proto.rop = argv[++i]; proto.rn = atoi(argv[++i]);
      for (int k = 0; k < 3; k++) proto.ra[k] = strtoll(argv[++i], 0, 10);
    }
  }
  signal(SIGSEGV, onsig); signal(SIGFPE, onsig); signal(SIGILL, onsig); signal(SIGBUS, onsig); signal(SIGABRT, onsig); signal(SIGTRAP, onsig);
  struct Item { Job *j; int slice, n; };
  std::vector<Item> items;
  for (auto &j : jobs()) {
    if (!only.empty() && j.cfg != only) continue;
    if (j.thorough_only && !thorough && !replay) continue;
    int n = replay ? 1 : j.weight;
    for (int s = 0; s < n; s++) items.push_back({&j, s, n});
  }
  std::stable_sort(items.begin(), items.end(), [](const Item &a, const Item &b) { return a.n > b.n; });
  if (replay) nthreads = 1;
  std::atomic<size_t> next(0);
  std::mutex mx;
  unsigned long long states = 0, transitions = 0, traces = 0, skipped = 0, outcomes = 0;
  std::map<std::string, unsigned long long> ops;
  std::map<std::string, std::vector<uint64_t>> outc;
  std::map<std::pair<std::string, std::string>, Viol> viol;
  std::vector<std::string> samples; std::set<std::string> cfgs;
  auto worker = [&](int tid) {
    for (;;) {
      size_t i = next++;
      if (i >= items.size()) break;
      Ctx c = proto; c.cfg = items[i].j->cfg; c.tid = tid; c.slice = items[i].slice; c.nslices = items[i].n; c.replay = replay; c.thorough = thorough; c.known = replay ? nullptr : &known;
      c.cur = &g_cur[tid]; c.cur->cfg = items[i].j->cfg.c_str(); c.cur->op = "start"; c.cur->n = 0; c.cur->active = true;
      items[i].j->run(c);
      c.cur->active = false;
      std::lock_guard<std::mutex> l(mx);
      states += c.states; transitions += c.transitions; traces += c.traces; skipped += c.skipped; cfgs.insert(c.cfg); known_hit.insert(c.known_hit.begin(), c.known_hit.end());
      { std::lock_guard<std::mutex> l2(opmx()); for (size_t k = 0; k < c.opcount.size(); k++) ops[opnames()[k]] += c.opcount[k]; }
      for (auto &v : c.viol) {
        auto it = viol.find(v.first);
        if (it == viol.end()) viol[v.first] = v.second;
        else { long n = it->second.count + v.second.count; if (v.second.weight < it->second.weight) it->second = v.second; it->second.count = n; }
      }
      if (!c.hitmap.empty()) { auto &o = outc[c.cfg]; if (o.empty()) o.assign(1024, 0); for (int k = 0; k < 1024; k++) o[k] |= c.hitmap[k]; }
      size_t ns = 0;
      for (auto &s : c.samples) if (samples.size() < 14 && (ns++ == 0 || samples.size() < 7)) samples.push_back(c.cfg + ": " + s);
    }
  };
  std::vector<std::thread> th;
  for (int t = 0; t < nthreads; t++) th.emplace_back(worker, t);
  for (auto &t : th) t.join();
  for (auto &o : outc) for (uint64_t w : o.second) outcomes += __builtin_popcountll(w);
  printf("{\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"skipped\":%llu,\"outcomes\":%llu,\"configs\":%zu,\"ops\":{", states, transitions, traces, skipped, outcomes, cfgs.size());
  bool first = true;
  for (auto &o : ops) { if (!o.second) continue; printf("%s%s:%llu", first ? "" : ",", js(o.first).c_str(), o.second); first = false; }
  printf("},\"samples\":[");
  for (size_t i = 0; i < samples.size(); i++) printf("%s%s", i ? "," : "", js(samples[i]).c_str());
  printf("],\"config_names\":[");
  first = true;
  for (auto &c : cfgs) { printf("%s%s", first ? "" : ",", js(c).c_str()); first = false; }
  printf("],\"known_hit\":[");
  first = true;
  for (auto &c : known_hit) { printf("%s%s", first ? "" : ",", js(c).c_str()); first = false; }
  printf("],\"violations\":[");
  first = true;
  for (auto &v : viol) {
    const Viol &x = v.second;
    printf("%s{\"cfg\":%s,\"op\":%s,\"n\":%d,\"args\":[%lld,%lld,%lld],\"count\":%ld,\"detail\":%s}", first ? "" : ",", js(x.cfg).c_str(), js(x.op).c_str(), x.n, (long long)x.a[0], (long long)x.a[1], (long long)x.a[2], x.count, js(x.detail).c_str());
    first = false;
  }
  printf("]}\n");
  return 0;
}
} // namespace mc
int main(int argc, char **argv) { return mc::main_(argc, argv, ""); }
