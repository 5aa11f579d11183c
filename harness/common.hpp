// Shared plumbing of the explorers: cases, counters, sharding, crash/hang attribution, JSON output.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <unordered_set>
#include <vector>

namespace hx
{
inline std::string fmt(const char * f, ...)
{
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
inline uint64_t hash_str(const std::string & s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) {h ^= c; h *= 1099511628211ull;}
  return h ^ (h >> 29);
}
inline std::string jesc(const std::string & s)
{
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {o += '\\'; o += c;} else if (c < 32 || c > 126) {o += fmt("\\u%04x", c);} else {o += c;}
  }
  return o;
}

// One case: a mode and a list of choices. "mode:1,2,3" is its replayable text form.
struct Case
{
  int mode = 0;
  std::vector<int> v;
  std::string str() const
  {
    std::string s = std::to_string(mode) + ":";
    for (size_t i = 0; i < v.size(); ++i) {s += (i ? "," : "") + std::to_string(v[i]);}
    return s;
  }
  static Case parse(const std::string & s)
  {
    Case c; c.mode = atoi(s.c_str());
    size_t p = s.find(':');
    while (p != std::string::npos && p + 1 < s.size()) {
      c.v.push_back(atoi(s.c_str() + p + 1));
      p = s.find(',', p + 1);
    }
    return c;
  }
};

struct Violation {std::string cas, msg;};

struct Ctx
{
  std::string prop, tier = "quick", variant = "opt", out, curpath;
  int shard = 0, nshards = 1;
  double budget = 1e9;             // seconds; a run that hits it reports exhaustive=false
  bool thorough = false, replay = false, verbose = false;
  uint64_t states = 0, transitions = 0, traces = 0, evaluations = 0, index = 0;
  bool capped = false;
  std::unordered_set<uint64_t> outcomes;
  uint64_t outcome_overflow = 0;
  std::vector<std::string> samples;
  std::vector<std::pair<std::string, uint64_t>> extra;
  std::vector<Violation> violations;
  size_t max_violations = 3;
  std::function<void(Ctx &, const Case &)> exec;
  std::function<std::string(const Case &)> describe;
  // current case
  bool failed = false;
  std::string failmsg;
  char * cur = nullptr;
  static constexpr size_t CUR = 8192;
  // real time, also where a harness replaces the clocks the code under test sees
  static double now() {struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);}
  double t0 = now();

  double elapsed() const
  {
    return now() - t0;
  }
  void fail(const std::string & m) {if (!failed) {failed = true; failmsg = m;}}
  bool check(bool ok, const char * m) {if (!ok) {fail(m);} return ok;}
  bool stop() const {return violations.size() >= max_violations || capped;}
  void outcome(uint64_t h) {if (outcomes.size() < 2000000) {outcomes.insert(h);} else {outcome_overflow++;}}
  void count(const std::string & k, uint64_t n)
  {
    for (auto & e : extra) {if (e.first == k) {e.second += n; return;}}
    extra.push_back({k, n});
  }
  // sharding: true when the next item belongs to this shard
  bool mine() {return static_cast<int>(index++ % static_cast<uint64_t>(nshards)) == shard;}
  void set_cur(const Case & c)
  {
    if (!cur) {return;}
    std::string s = c.str();
    size_t n = std::min(s.size(), CUR - 16);
    memcpy(cur + 8, s.data(), n); cur[8 + n] = 0;
    (*reinterpret_cast<uint64_t *>(cur))++;
  }
  void run(const Case & c)
  {
    failed = false; failmsg.clear();
    set_cur(c);
    if ((evaluations & 63) == 0 && elapsed() > budget) {capped = true;}
    evaluations++;
    if (samples.size() < 3 || (evaluations % 100003 == 0 && samples.size() < 8)) {
      samples.push_back(describe ? describe(c) : c.str());
    }
    try {
      exec(*this, c);
    } catch (const std::exception & e) {
      fail(std::string("uncaught exception: ") + e.what());
    } catch (...) {
      fail("uncaught exception of unknown type");
    }
    if (failed) {
      violations.push_back({c.str(), failmsg + (describe ? " | case: " + describe(c) : "")});
      if (replay || verbose) {fprintf(stderr, "FAIL %s: %s\n", c.str().c_str(), violations.back().msg.c_str());}
    }
  }
  void write() const
  {
    FILE * f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) {_exit(3);}
    fprintf(f, "{\"prop\":\"%s\",\"variant\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"evaluations\":%llu,"
      "\"capped\":%s,\"wall\":%.3f,\n", prop.c_str(), variant.c_str(), (unsigned long long)states,
      (unsigned long long)transitions, (unsigned long long)traces, (unsigned long long)evaluations,
      capped ? "true" : "false", elapsed());
    fprintf(f, "\"outcomes\":[");
    size_t i = 0;
    for (auto h : outcomes) {
      if (i >= 300000) {break;}
      fprintf(f, "%s%llu", i++ ? "," : "", (unsigned long long)h);
    }
    fprintf(f, "],\"outcome_count\":%llu,\n\"extra\":{", (unsigned long long)(outcomes.size()));
    for (i = 0; i < extra.size(); ++i) {
      fprintf(f, "%s\"%s\":%llu", i ? "," : "", jesc(extra[i].first).c_str(), (unsigned long long)extra[i].second);
    }
    fprintf(f, "},\n\"samples\":[");
    for (i = 0; i < samples.size(); ++i) {fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());}
    fprintf(f, "],\n\"violations\":[");
    for (i = 0; i < violations.size(); ++i) {
      fprintf(f, "%s{\"case\":\"%s\",\"msg\":\"%s\"}", i ? "," : "", jesc(violations[i].cas).c_str(), jesc(violations[i].msg).c_str());
    }
    fprintf(f, "]}\n");
    if (f != stdout) {fclose(f);}
  }
};

// Hang watchdog: if the case counter has not moved for `hang_s` ticks of one second, exit 97.
inline char * g_cur = nullptr;
inline int g_hang_s = 60;
inline void on_alarm(int)
{
  static uint64_t last = ~0ull; static int stuck = 0;
  uint64_t now = g_cur ? *reinterpret_cast<volatile uint64_t *>(g_cur) : 0;
  if (now == last) {if (++stuck >= g_hang_s) {_exit(97);}} else {stuck = 0; last = now;}
}

struct Prop
{
  std::function<void(Ctx &)> enumerate;
  std::function<void(Ctx &, const Case &)> exec;
  std::function<std::string(const Case &)> describe;
};

inline int main_impl(int argc, char ** argv, const std::function<bool(Ctx &, Prop &)> & select)
{
  Ctx ctx; std::string replay;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() -> std::string {return i + 1 < argc ? argv[++i] : "";};
    if (a == "--tier") {ctx.tier = nx();} else if (a == "--variant") {ctx.variant = nx();} else if (a == "--shard") {
      ctx.shard = atoi(nx().c_str());
    } else if (a == "--nshards") {ctx.nshards = atoi(nx().c_str());} else if (a == "--out") {ctx.out = nx();} else if (a == "--cur") {
      ctx.curpath = nx();
    } else if (a == "--replay") {replay = nx(); ctx.replay = true;} else if (a == "--budget") {ctx.budget = atof(nx().c_str());} else if (
      a == "--hang") {g_hang_s = atoi(nx().c_str());} else if (a == "-v") {ctx.verbose = true;} else {ctx.prop = a;}
  }
  ctx.thorough = ctx.tier == "thorough";
  if (!ctx.curpath.empty()) {
    int fd = open(ctx.curpath.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, Ctx::CUR) != 0) {return 3;}
    ctx.cur = static_cast<char *>(mmap(nullptr, Ctx::CUR, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    if (ctx.cur == MAP_FAILED) {return 3;}
    close(fd);
    g_cur = ctx.cur;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sa.sa_flags = SA_RESTART;
    sigaction(SIGALRM, &sa, nullptr);
    struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
    setitimer(ITIMER_REAL, &it, nullptr);
  }
  Prop p;
  if (!select(ctx, p)) {fprintf(stderr, "unknown property %s\n", ctx.prop.c_str()); return 3;}
  ctx.exec = p.exec; ctx.describe = p.describe;
  if (ctx.replay) {
    ctx.run(Case::parse(replay));
  } else {
    p.enumerate(ctx);
  }
  ctx.write();
  return ctx.violations.empty() ? 0 : 1;
}
}  // namespace hx
