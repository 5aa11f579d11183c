// Bounded concurrent programs and the enumeration of all their schedules under the controlled scheduler.
#pragma once
#include <functional>
#include <string>
#include <vector>

#include "common.hpp"
#include "sched.hpp"

using hx::Case;
using hx::Ctx;
using hx::fmt;
using sched::NoTrack;
using sched::Track;

// ---------------------------------------------------------------- programs: v = {threads, len, codes..., len, codes..., -1, schedule...}
using Prog = std::vector<std::vector<int>>;
static std::vector<int> enc(const Prog & p)
{
  std::vector<int> v = {static_cast<int>(p.size())};
  for (auto & t : p) {v.push_back(static_cast<int>(t.size())); v.insert(v.end(), t.begin(), t.end());}
  v.push_back(-1); return v;
}
static Prog decode(const std::vector<int> & v, std::vector<int> & schedule)
{
  Prog p; size_t i = 1;
  for (int t = 0; t < v[0]; ++t) {int n = v[i++]; p.emplace_back(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(i) + n); i += static_cast<size_t>(n);}
  i++; schedule.assign(v.begin() + static_cast<long>(i), v.end()); return p;
}

// ---------------------------------------------------------------- running one schedule
struct Thread {std::function<void()> body;};
static void entry(void * a) {static_cast<Thread *>(a)->body();}
// runs the threads; false (and the case failed) when something is wrong with the execution itself
static bool execute(Ctx & x, std::vector<Thread> & ts)
{
  for (auto & t : ts) {sched::spawn(entry, &t);}
  const char * e = sched::run();
  x.transitions += sched::points(); x.traces++;
  if (!sched::prefix_ok()) {x.fail("the schedule does not exist in this execution"); return false;}
  if (e) {x.fail(e); return false;}
  return true;
}
static int g_bound = -1;
static uint64_t g_cap = 0;   // most schedules of one program seen
// all schedules of one program
static void explore(Ctx & x, int mode, const std::vector<int> & prog)
{
  if (x.stop() || !x.mine()) {return;}
  Case c; c.mode = mode; std::vector<int> s; uint64_t n = 0;
  x.states++;
  for (;;) {
    c.v = prog; c.v.insert(c.v.end(), s.begin(), s.end());
    x.run(c); n++;
    if (x.stop() || !x.violations.empty()) {break;}
    int k = sched::ntrace(); const sched::Choice * t = sched::trace();
    while (k > 0 && t[k - 1].c + 1 >= t[k - 1].n) {k--;}
    if (k == 0) {break;}
    s.clear(); for (int i = 0; i < k; ++i) {s.push_back(t[i].c);}
    s[static_cast<size_t>(k - 1)]++;
  }
  if (n > g_cap) {g_cap = n;}
}
static std::string sched_text(const std::vector<int> & s)
{
  std::string t = " schedule [";
  for (int k : s) {t += std::to_string(k);}
  return t + "]";
}
