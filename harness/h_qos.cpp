// Exhaustive enumeration of bounded QoS domains on the real functions against direct transcriptions of the rules:
// C16 verdicts, C17 reason text, C18/C19 best-available adaptation, C20 topic and service variants.
#include <atomic>
#include <map>
#include <set>

#include "graph_model.hpp"
#include "rmw/init.h"
#include "rmw/error_handling.h"
#include "rmw/qos_profiles.h"
#include "rmw/qos_string_conversions.h"
#include "rmw_dds_common/qos.hpp"

extern std::atomic<int> env_endpoint_array_fini_result;
extern std::atomic<int> env_endpoint_array_fini_calls;

using hx::Case;
using hx::Ctx;
using hx::fmt;
using namespace rmw_dds_common;  // NOLINT

static const rmw_qos_reliability_policy_t REL[] = {RMW_QOS_POLICY_RELIABILITY_RELIABLE, RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT, RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT,
  RMW_QOS_POLICY_RELIABILITY_UNKNOWN, RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE};
static const rmw_qos_durability_policy_t DUR[] = {RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL, RMW_QOS_POLICY_DURABILITY_VOLATILE, RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT,
  RMW_QOS_POLICY_DURABILITY_UNKNOWN, RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE};
static const rmw_qos_liveliness_policy_t LIV[] = {RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC, RMW_QOS_POLICY_LIVELINESS_AUTOMATIC, RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT,
  RMW_QOS_POLICY_LIVELINESS_UNKNOWN, RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE};
// index 0 strongest, 1 weakest, 2 system default, 3 unknown, 4 best available
static const rmw_time_t TIM[] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}, {0, 999999999}, {2, 0}, {9223372036ull, 854775807ull}, {4294967296ull, 0}, {4294967297ull, 0},
  {18446744074ull, 0}, {~0ull, 0}, {~0ull, 999999999}, {9223372037ull, 0}};   // the last ones do not fit 64 bits of nanoseconds
constexpr int NT = 13, NT_DDS = 9;   // durations above RMW_DURATION_INFINITE are compared (C16) but no endpoint announces them
static const rmw_time_t BA_TIME = RMW_QOS_DEADLINE_BEST_AVAILABLE;

static bool teq(rmw_time_t a, rmw_time_t b) {return a.sec == b.sec && a.nsec == b.nsec;}
static bool tlt(rmw_time_t a, rmw_time_t b) {return a.sec != b.sec ? a.sec < b.sec : a.nsec < b.nsec;}
static bool tdef(rmw_time_t t) {return t.sec == 0 && t.nsec == 0;}

struct Verdict {rmw_qos_compatibility_type_t v; int entries;};
// transcription of the matching rules
static Verdict rules(const rmw_qos_profile_t & p, const rmw_qos_profile_t & s)
{
  int err = 0, warn = 0;
  err += p.reliability == REL[1] && s.reliability == REL[0];
  err += p.durability == DUR[1] && s.durability == DUR[0];
  err += p.liveliness == LIV[1] && s.liveliness == LIV[0];
  auto late = [](rmw_time_t a, rmw_time_t b) {return !tdef(b) && (tdef(a) || tlt(b, a));};
  err += late(p.deadline, s.deadline);
  err += late(p.liveliness_lease_duration, s.liveliness_lease_duration);
  if (err) {return {RMW_QOS_COMPATIBILITY_ERROR, err};}
  // unk: may stand for any concrete value.  Incompatible iff pub is weak and sub is strong.
  auto maybe = [](bool pu, bool pweak, bool su, bool sstrong) {return (pu || su) && (pu || pweak) && (su || sstrong);};
  warn += maybe(p.reliability == REL[2] || p.reliability == REL[3], p.reliability == REL[1], s.reliability == REL[2] || s.reliability == REL[3], s.reliability == REL[0]);
  warn += maybe(p.durability == DUR[2] || p.durability == DUR[3], p.durability == DUR[1], s.durability == DUR[2] || s.durability == DUR[3], s.durability == DUR[0]);
  warn += maybe(p.liveliness == LIV[2] || p.liveliness == LIV[3], p.liveliness == LIV[1], s.liveliness == LIV[2] || s.liveliness == LIV[3], s.liveliness == LIV[0]);
  return {warn ? RMW_QOS_COMPATIBILITY_WARNING : RMW_QOS_COMPATIBILITY_OK, warn};
}
static rmw_qos_profile_t profile(int rel, int dur, int liv, int dl, int le, int other = 0)
{
  static const rmw_qos_history_policy_t H[] = {RMW_QOS_POLICY_HISTORY_KEEP_LAST, RMW_QOS_POLICY_HISTORY_KEEP_ALL, RMW_QOS_POLICY_HISTORY_SYSTEM_DEFAULT, RMW_QOS_POLICY_HISTORY_UNKNOWN};
  static const size_t D[] = {10, 0, ~static_cast<size_t>(0)};
  static const rmw_time_t LS[] = {{0, 0}, {1, 5}, {9223372036ull, 854775807ull}};
  rmw_qos_profile_t q; memset(&q, 0, sizeof q);
  q.reliability = REL[rel]; q.durability = DUR[dur]; q.liveliness = LIV[liv]; q.deadline = dl < 0 ? BA_TIME : TIM[dl]; q.liveliness_lease_duration = le < 0 ? BA_TIME : TIM[le];
  q.history = H[other % 4]; q.depth = D[other / 4 % 3]; q.lifespan = LS[other / 12 % 3]; q.avoid_ros_namespace_conventions = other / 36 % 2;
  return q;
}
constexpr int NOTHER = 72;
static std::string pq(const rmw_qos_profile_t & q) {return "{" + gm::qos_str(q) + "}";}

// ------------------------------------------------------------------ C16
// mode 0: v = {pub deadline, sub deadline, pub lease, sub lease}: all 5^6 policy combinations
// mode 1: v = {pub other, sub other}: policies {strong, weak, unknown} x duration classes
static bool one16(Ctx & x, const rmw_qos_profile_t & p, const rmw_qos_profile_t & s, int pre)
{
  rmw_qos_compatibility_type_t c = static_cast<rmw_qos_compatibility_type_t>(pre);
  rmw_ret_t r = qos_profile_check_compatible(p, s, &c, nullptr, 0);
  Verdict w = rules(p, s);
  x.transitions++;
  if (r != RMW_RET_OK || c != w.v) {
    x.fail(fmt("publisher %s subscription %s: expected verdict %d, got %d (ret %d)", pq(p).c_str(), pq(s).c_str(), w.v, c, r)); return false;
  }
  return true;
}
static void exec16(Ctx & x, const Case & c)
{
  uint64_t h = 0; int pre = 0;
  if (c.mode == 0) {
    for (int i = 0; i < 15625; ++i) {
      int a = i; int d[6]; for (int & k : d) {k = a % 5; a /= 5;}
      auto p = profile(d[0], d[1], d[2], c.v[0], c.v[2]), s = profile(d[3], d[4], d[5], c.v[1], c.v[3]);
      if (!one16(x, p, s, pre++ % 3)) {return;}
      h = h * 31 + rules(p, s).v;
    }
  } else {
    for (int i = 0; i < 729; ++i) {
      int a = i; int d[6]; for (int & k : d) {k = a % 3; a /= 3;}
      for (int t = 0; t < 9; ++t) {
        static const int PT[] = {0, 5, 5}, ST[] = {0, 5, 1};
        auto p = profile(d[0], d[1], d[2], PT[t % 3], PT[t / 3], c.v[0]), s = profile(d[3], d[4], d[5], ST[t % 3], ST[t / 3], c.v[1]);
        if (!one16(x, p, s, pre++ % 3)) {return;}
        h = h * 31 + rules(p, s).v;
      }
    }
  }
  x.traces++; x.outcome(h);
}
static void enum16(Ctx & x)
{
  int n = x.variant == "asan" && !x.thorough ? 3 : NT;
  for (int a = 0; a < n; ++a) {for (int b = 0; b < n; ++b) {for (int c = 0; c < n; ++c) {for (int d = 0; d < n; ++d) {
          if (x.stop()) {return;}
          if (x.mine()) {Case k; k.v = {a, b, c, d}; x.states += 15625; x.run(k);}
        }}}}
  int st = x.variant == "asan" ? 7 : 1;
  for (int a = 0; a < NOTHER; a += st) {for (int b = 0; b < NOTHER; b += st) {
      if (x.stop()) {return;}
      if (x.mine()) {Case k; k.mode = 1; k.v = {a, b}; x.states += 6561; x.run(k);}
    }}
}
static std::string desc16(const Case & c)
{
  return c.mode ? fmt("history/depth/lifespan/convention variants %d (publisher) and %d (subscription) x all policies", c.v[0], c.v[1]) :
         fmt("deadlines %d/%d leases %d/%d x all 5^6 policy pairs", c.v[0], c.v[1], c.v[2], c.v[3]);
}

// ------------------------------------------------------------------ C17
// v = {6 policy indices, deadline class, lease class}; every buffer size
static const int CP[] = {0, 5, 5, 5}, CS[] = {0, 5, 1, 5};   // default/default, compatible, too short; index 3: publisher default, subscription set
static int occurrences(const std::string & s, const char * w)
{
  int n = 0; for (size_t p = s.find(w); p != std::string::npos; p = s.find(w, p + 1)) {n++;}
  return n;
}
static bool says(const std::string & text, const char * word)   // ignoring case; alternatives separated by |
{
  std::string t; for (char k : text) {t += static_cast<char>(tolower(k));}
  std::string w = word; size_t at = 0;
  for (;;) {size_t e = w.find('|', at); if (t.find(w.substr(at, e == std::string::npos ? e : e - at)) != std::string::npos) {return true;} if (e == std::string::npos) {return false;} at = e + 1;}
}
static std::string text17(const rmw_qos_profile_t & p, const rmw_qos_profile_t & s)
{
  static std::vector<char> b(4096); b[0] = 0; rmw_qos_compatibility_type_t v; rmw_ret_t r = qos_profile_check_compatible(p, s, &v, b.data(), b.size());
  b.back() = 0; return r == RMW_RET_OK ? b.data() : "(failed)";
}
// the text has, for every problem, the entry which that problem alone would give; the entry names the policy and undetermined values
static std::string entries17(const rmw_qos_profile_t & p, const rmw_qos_profile_t & s, const std::string & full)
{
  static const char * WORD[] = {"reliab|best effort|best_effort", "durab|volatile|transient", "liveliness", "deadline", "lease"};
  static const char * NAME[] = {"reliability", "durability", "liveliness", "deadline", "lease duration"};
  std::multiset<std::string> want, got;
  for (int k = 0; k < 5; ++k) {
    auto a = profile(0, 0, 0, 0, 0), b = a; const char * pv = nullptr, * sv = nullptr; bool pu = false, su = false;
    switch (k) {
      case 0: a.reliability = p.reliability; b.reliability = s.reliability; pv = rmw_qos_reliability_policy_to_str(p.reliability); sv = rmw_qos_reliability_policy_to_str(s.reliability);
        pu = p.reliability == REL[2] || p.reliability == REL[3]; su = s.reliability == REL[2] || s.reliability == REL[3]; break;
      case 1: a.durability = p.durability; b.durability = s.durability; pv = rmw_qos_durability_policy_to_str(p.durability); sv = rmw_qos_durability_policy_to_str(s.durability);
        pu = p.durability == DUR[2] || p.durability == DUR[3]; su = s.durability == DUR[2] || s.durability == DUR[3]; break;
      case 2: a.liveliness = p.liveliness; b.liveliness = s.liveliness; pv = rmw_qos_liveliness_policy_to_str(p.liveliness); sv = rmw_qos_liveliness_policy_to_str(s.liveliness);
        pu = p.liveliness == LIV[2] || p.liveliness == LIV[3]; su = s.liveliness == LIV[2] || s.liveliness == LIV[3]; break;
      case 3: a.deadline = p.deadline; b.deadline = s.deadline; break;
      default: a.liveliness_lease_duration = p.liveliness_lease_duration; b.liveliness_lease_duration = s.liveliness_lease_duration;
    }
    std::string t = text17(a, b);
    if (t.empty() || (says(full, "error") && !says(t, "error"))) {continue;}
    if (!says(t, WORD[k])) {return std::string("the entry for the ") + NAME[k] + " is '" + t + "'";}
    if (!pv) {pv = "unknown";}
    if (!sv) {sv = "unknown";}
    if (says(t, "warning") && ((pu && !says(t, pv)) || (su && !says(t, sv)))) {return std::string("the entry for the ") + NAME[k] + " does not name the value: '" + t + "'";}
    if (says(t, "warning") && pu && su && strcmp(pv, sv) != 0) {
      size_t wp = t.find("ublisher"), ws = t.find("ubscription"), ap = t.find(pv), as = t.find(sv);
      if (wp != std::string::npos && ws != std::string::npos && (wp < ws) != (ap < as)) {return std::string("the entry for the ") + NAME[k] + " has the values the wrong way round: '" + t + "'";}
    }
    want.insert(t); if (want.count(t) > 1) {return "two problems have the same entry '" + t + "'";}
  }
  for (size_t at = 0; at < full.size(); ) {size_t e = full.find(';', at); e = e == std::string::npos ? full.size() : e + 1; got.insert(full.substr(at, e - at)); at = e;}
  if (got != want) {std::string w; for (auto & t : want) {w += t;} return "the text '" + full + "' does not have the entries '" + w + "'";}
  return "";
}
static void exec17(Ctx & x, const Case & c)
{
  int dc = c.v[6], lc = c.v[7];
  auto p = profile(c.v[0], c.v[1], c.v[2], dc == 3 ? 0 : CP[dc], lc == 3 ? 0 : CP[lc]);
  auto s = profile(c.v[3], c.v[4], c.v[5], CS[dc], CS[lc]);
  std::string who = "publisher " + pq(p) + " subscription " + pq(s) + ": ";
  Verdict w = rules(p, s);
  static std::vector<char> big(4096), buf(4096);
  std::fill(big.begin(), big.end(), 'x');
  rmw_qos_compatibility_type_t v = RMW_QOS_COMPATIBILITY_OK, v0 = v;
  rmw_ret_t r = qos_profile_check_compatible(p, s, &v0, nullptr, 0);
  if (r != RMW_RET_OK) {x.fail(who + fmt("no buffer: ret %d", r)); return;}
  r = qos_profile_check_compatible(p, s, &v, big.data(), big.size());
  if (r != RMW_RET_OK || !memchr(big.data(), 0, big.size())) {x.fail(who + fmt("ret %d or unterminated text", r)); return;}
  std::string full = big.data();
  if (v != v0) {x.fail(who + "verdict depends on the buffer"); return;}
  if ((v == RMW_QOS_COMPATIBILITY_OK) != full.empty()) {x.fail(who + fmt("verdict %d but text '%s'", v, full.c_str())); return;}
  int ne = occurrences(full, "ERROR"), nw = occurrences(full, "WARNING"), ns = occurrences(full, ";");
  if (v == RMW_QOS_COMPATIBILITY_ERROR && (ne != w.entries || nw || ns != ne)) {x.fail(who + "text of an incompatible pair: '" + full + "'"); return;}
  if (v == RMW_QOS_COMPATIBILITY_WARNING && (nw != w.entries || ne || ns != nw)) {x.fail(who + "text of a possibly incompatible pair: '" + full + "'"); return;}
  std::string bad = entries17(p, s, full); if (!bad.empty()) {x.fail(who + bad); return;}
  bool asan = x.variant == "asan";
  for (size_t n = 0; n <= full.size() + 3; ++n) {
    char * b; constexpr size_t PAD = 24; size_t used = 0;
    if (asan) {b = static_cast<char *>(malloc(n ? n : 1)); if (n) {memset(b, 'x', n);}} else {
      // guard bytes; what is in the buffer before must not matter
      used = PAD + full.size() + 4 + 96; memset(buf.data(), 0x7e, used); b = buf.data() + PAD; if (n % 3 == 1 && n > 1) {b[n - 1] = 0;}
      if (n % 3 == 2) {b[0] = 0;}
    }
    v = static_cast<rmw_qos_compatibility_type_t>(n % 3);
    r = qos_profile_check_compatible(p, s, &v, b, n);
    x.transitions++;
    bool ok = r == RMW_RET_OK && v == v0; const char * what = ok ? "" : "return code or verdict depends on the buffer";
    if (ok && n) {
      const void * z = memchr(b, 0, n);
      if (!z) {what = "text is not terminated"; ok = false;} else if (full.compare(0, strlen(b), b) != 0) {what = "text is not a prefix of the full text"; ok = false;}
    }
    if (ok && !asan) {
      for (size_t i = 0; i < PAD; ++i) {ok = ok && buf[i] == 0x7e;}
      if (n == 0 && b[0] != 0x7e) {ok = false;}
      for (size_t i = PAD + (n ? n : 1); i < used; ++i) {ok = ok && buf[i] == 0x7e;}
      if (!ok) {what = "wrote outside the buffer";}
    }
    if (asan) {free(b);}
    if (!ok) {x.fail(who + fmt("buffer size %zu: %s (ret %d)", n, what, r)); return;}
  }
  rmw_reset_error();
  x.traces++; x.outcome(hx::hash_str(full));
}
static void inv17(Ctx & x, const Case & c)
{
  auto p = profile(c.v[0], c.v[1], c.v[2], 0, 0), s = profile(c.v[3], c.v[4], c.v[5], 0, 1);
  char b[64]; rmw_qos_compatibility_type_t v = RMW_QOS_COMPATIBILITY_OK; memset(b, 'x', sizeof b);
  for (size_t n : {static_cast<size_t>(0), static_cast<size_t>(1), sizeof b}) {
    rmw_ret_t r = qos_profile_check_compatible(p, s, nullptr, b, n);
    if (r != RMW_RET_INVALID_ARGUMENT) {x.fail(fmt("missing verdict output: ret %d", r)); return;}
    r = qos_profile_check_compatible(p, s, nullptr, nullptr, n);
    if (r != RMW_RET_INVALID_ARGUMENT) {x.fail(fmt("missing verdict output, no buffer: ret %d", r)); return;}
    if (n) {
      r = qos_profile_check_compatible(p, s, &v, nullptr, n);
      if (r != RMW_RET_INVALID_ARGUMENT) {x.fail(fmt("missing buffer with size %zu: ret %d", n, r)); return;}
    }
    x.transitions += 3;
  }
  rmw_reset_error(); x.traces++;
}
static void enum17(Ctx & x)
{
  bool asan = x.variant == "asan"; int n = asan && !x.thorough ? 3 : 5, nd = 4;
  for (int i = 0; i < n * n * n * n * n * n; ++i) {
    int a = i; std::vector<int> d; for (int k = 0; k < 6; ++k) {d.push_back(a % n); a /= n;}
    if (!x.mine()) {continue;}
    if (i < 5000) {Case c; c.mode = 1; c.v = d; x.run(c);}
    for (int t = 0; t < nd * nd; ++t) {
      if (x.stop()) {return;}
      if (!x.thorough && i % 3 && t % 4 && t / 4) {continue;}   // quick: both durations deviating only for every third combination of policies
      Case c; c.v = d; c.v.push_back(t % nd); c.v.push_back(t / nd); x.states++; x.run(c);
    }
  }
}
static std::string desc17(const Case & c)
{
  std::string s = c.mode ? "invalid arguments, policies" : "every buffer size, policies"; for (int k : c.v) {s += fmt(" %d", k);}
  return s;
}

// ------------------------------------------------------------------ C18, C19
// v = {mask of best-available fields, own others, then 5 numbers per listed endpoint}
static rmw_qos_profile_t own(int mask, int alt)
{
  rmw_qos_profile_t q = profile(mask & 1 ? 4 : (alt ? 0 : 1), mask & 2 ? 4 : (alt ? 0 : 1), mask & 4 ? 4 : (alt ? 0 : 1), mask & 8 ? -1 : (alt ? 5 : 0), mask & 16 ? -1 : (alt ? 0 : 3), alt ? 41 : 6);
  return q;
}
static rmw_qos_profile_t adapted(bool sub, rmw_qos_profile_t q, const std::vector<rmw_qos_profile_t> & l)
{
  bool ba[5] = {q.reliability == REL[4], q.durability == DUR[4], q.liveliness == LIV[4], teq(q.deadline, BA_TIME), teq(q.liveliness_lease_duration, BA_TIME)};
  bool allrel = true, alltl = true, allman = true, anyman = false;
  rmw_time_t d = {0, 0}, e = {0, 0};
  for (auto & p : l) {
    allrel = allrel && p.reliability == REL[0]; alltl = alltl && p.durability == DUR[0]; allman = allman && p.liveliness == LIV[0]; anyman = anyman || p.liveliness == LIV[0];
    auto upd = [sub](rmw_time_t & acc, rmw_time_t v) {if (!tdef(v) && (tdef(acc) || (sub ? tlt(acc, v) : tlt(v, acc)))) {acc = v;}};
    upd(d, p.deadline); upd(e, p.liveliness_lease_duration);
  }
  if (ba[0]) {q.reliability = !sub || allrel ? REL[0] : REL[1];}
  if (ba[1]) {q.durability = !sub || alltl ? DUR[0] : DUR[1];}
  if (ba[2]) {q.liveliness = (sub ? allman : anyman) ? LIV[0] : LIV[1];}
  if (ba[3]) {q.deadline = d;}
  if (ba[4]) {q.liveliness_lease_duration = e;}
  return q;
}
static bool same(const rmw_qos_profile_t & a, const rmw_qos_profile_t & b) {return gm::qos_str(a) == gm::qos_str(b);}
static bool same_fast(const rmw_qos_profile_t & a, const rmw_qos_profile_t & b)
{
  return a.history == b.history && a.depth == b.depth && a.reliability == b.reliability && a.durability == b.durability && teq(a.deadline, b.deadline) &&
         teq(a.lifespan, b.lifespan) && a.liveliness == b.liveliness && teq(a.liveliness_lease_duration, b.liveliness_lease_duration) &&
         a.avoid_ros_namespace_conventions == b.avoid_ros_namespace_conventions;
}
static bool g_sub = true;   // C18: adapt a subscription to publishers; C19: a publisher to subscriptions
static void exec18(Ctx & x, const Case & c)
{
  int alt = c.v[1];
  std::vector<rmw_qos_profile_t> l;
  for (size_t i = 2; i + 4 < c.v.size(); i += 5) {l.push_back(profile(c.v[i], c.v[i + 1], c.v[i + 2], c.v[i + 3], c.v[i + 4], static_cast<int>(i) * 7 % NOTHER));}
  std::vector<rmw_topic_endpoint_info_t> infos(l.size());
  for (size_t i = 0; i < l.size(); ++i) {infos[i] = rmw_get_zero_initialized_topic_endpoint_info(); infos[i].qos_profile = l[i]; infos[i].endpoint_type = g_sub ? RMW_ENDPOINT_PUBLISHER : RMW_ENDPOINT_SUBSCRIPTION;}
  rmw_topic_endpoint_info_array_t arr; arr.size = l.size(); arr.info_array = l.empty() ? nullptr : infos.data();
  int m0 = c.v[0] < 0 ? 0 : c.v[0], m1 = c.v[0] < 0 ? 31 : c.v[0];   // -1: every subset of best-available fields
  uint64_t h = 0;
  for (int mask = m0; mask <= m1; ++mask) {
    rmw_qos_profile_t q = own(mask, alt), before = q;
    rmw_ret_t r = g_sub ? qos_profile_get_best_available_for_subscription(&arr, &q) : qos_profile_get_best_available_for_publisher(&arr, &q);
    x.transitions++;
    rmw_qos_profile_t want = adapted(g_sub, before, l);
    if (r != RMW_RET_OK || !same_fast(q, want)) {
      std::string s; for (auto & p : l) {s += pq(p) + " ";}
      x.fail(fmt("best-available fields %d: from ", mask) + pq(before) + " and list " + s + "expected " + pq(want) + " got " + pq(q) + fmt(" (ret %d)", r)); return;
    }
    for (size_t i = 0; i < l.size(); ++i) {if (!same_fast(infos[i].qos_profile, l[i])) {x.fail("the list was modified"); return;}}
    if (arr.size != l.size()) {x.fail("the list was modified"); return;}
    if (mask == 31) {
      bool concrete = true, dd = false, ds = false, ed = false, es = false;
      for (auto & p : l) {
        for (int k = 2; k < 5; ++k) {concrete = concrete && p.reliability != REL[k] && p.durability != DUR[k] && p.liveliness != LIV[k];}
        (tdef(p.deadline) ? dd : ds) = true; (tdef(p.liveliness_lease_duration) ? ed : es) = true;
      }
      // (a subscription cannot match both a publisher without and one with a deadline shorter than ... see the property)
      if (concrete && !(g_sub && ((dd && ds) || (ed && es)))) {
        for (auto & p : l) {
          Verdict v = g_sub ? rules(p, q) : rules(q, p);
          if (v.v != RMW_QOS_COMPATIBILITY_OK) {x.fail("the adapted profile " + pq(q) + " is not compatible with " + pq(p)); return;}
        }
      }
    }
    h = h * 131 + hx::hash_str(std::string(reinterpret_cast<const char *>(&q.deadline), sizeof q.deadline) + std::to_string(q.reliability) + std::to_string(q.durability) + std::to_string(q.liveliness));
  }
  if (c.mode == 1) {   // missing arguments
    rmw_qos_profile_t q = own(31, alt), b = q;
    rmw_ret_t r1 = g_sub ? qos_profile_get_best_available_for_subscription(nullptr, &q) : qos_profile_get_best_available_for_publisher(nullptr, &q);
    rmw_ret_t r2 = g_sub ? qos_profile_get_best_available_for_subscription(&arr, nullptr) : qos_profile_get_best_available_for_publisher(&arr, nullptr);
    if (r1 != RMW_RET_INVALID_ARGUMENT || r2 != RMW_RET_INVALID_ARGUMENT || !same(q, b)) {x.fail("missing argument not rejected"); return;}
    rmw_reset_error();
  }
  x.traces++; x.outcome(h);
}
static void enum18(Ctx & x)
{
  bool asan = x.variant == "asan", th = x.thorough;
  auto go = [&](std::vector<int> l, int alt) {
      if (x.stop() || !x.mine()) {return;}
      Case c; c.v = {-1, alt}; c.v.insert(c.v.end(), l.begin(), l.end()); c.mode = l.empty(); x.states++; x.run(c);
    };
  go({}, 0); go({}, 1);
  // every list of endpoints over a policy domain (np values each) and nt durations
  std::function<void(std::vector<int> &, int, int, int, int)> rec = [&](std::vector<int> & l, int len, int np, int nt, int alt) {
      if (x.stop()) {return;}
      if (len == 0) {go(l, alt); return;}
      for (int i = 0; i < np * np * np * nt * nt; ++i) {
        int a = i; size_t n = l.size();
        l.push_back(a % np); a /= np; l.push_back(a % np); a /= np; l.push_back(a % np); a /= np; l.push_back(a % nt); a /= nt; l.push_back(a);
        rec(l, len - 1, np, nt, alt); l.resize(n);
      }
    };
  std::vector<int> l;
  for (int alt = 0; alt < 2; ++alt) {
    rec(l, 1, 5, NT_DDS, alt);             // single endpoints, full domain
    rec(l, 2, 2, asan ? 2 : 5, alt);       // pairs: concrete policies x 5 durations
    if (!asan) {rec(l, 2, 4, 2, alt);}     // pairs: all policies but best available
    rec(l, 3, asan ? 1 : 2, asan ? 3 : 2, alt);
    if (!asan) {
      rec(l, 3, 3, 1, alt);                // triples: policies only
      rec(l, 3, 1, th ? 6 : 4, alt);       // triples: durations only
      rec(l, 4, 1, 2, alt); rec(l, 4, 2, 1, alt);
    }
    if (th && !asan) {rec(l, 2, 3, 5, alt); rec(l, 4, 1, 3, alt); rec(l, 5, 2, 1, alt); rec(l, 5, 1, 2, alt);}
  }
  // long lists, one endpoint deviating in one field
  std::vector<int> lens; for (int n = 5; n <= (th ? 40 : 20); ++n) {lens.push_back(n);}
  for (int p = 64; p <= (th ? 1024 : 256); p *= 2) {for (int d = -1; d <= 1; ++d) {lens.push_back(p + d);}}
  for (int n : lens) {
    for (int at = 0; at < n; ++at) {
      if (n > 40 && at > 1 && at != n / 2 && at < n - 2) {continue;}
      for (int field = 0; field < 5; ++field) {
        for (int base = 0; base < 3; ++base) {
          for (int dev = 0; dev < 5; ++dev) {
            std::vector<int> v; for (int i = 0; i < n; ++i) {for (int f = 0; f < 5; ++f) {v.push_back(i == at && f == field ? dev : base);}}
            go(v, at & 1);
          }
        }
      }
    }
  }
}
static std::string desc18(const Case & c)
{
  std::string s = "every subset of best-available fields, endpoints (reliability durability liveliness deadline lease):";
  for (size_t i = 2; i + 4 < c.v.size(); i += 5) {s += fmt(" [%d %d %d %d %d]", c.v[i], c.v[i + 1], c.v[i + 2], c.v[i + 3], c.v[i + 4]);}
  return s;
}

// ------------------------------------------------------------------ C20
// mode 0: v = {publisher?, mask, alt, list, query result, release result, missing argument}; mode 1: v = {rel, dur, liv, dl, le, other} services
static const int RETS[] = {RMW_RET_OK, RMW_RET_ERROR, RMW_RET_BAD_ALLOC, RMW_RET_INVALID_ARGUMENT, RMW_RET_INCORRECT_RMW_IMPLEMENTATION, RMW_RET_UNSUPPORTED, RMW_RET_TIMEOUT,
  RMW_RET_NODE_NAME_NON_EXISTENT, RMW_RET_NODE_NAME_NON_EXISTENT};
constexpr int NRET = 9;
static std::vector<rmw_qos_profile_t> list20(int k)
{
  switch (k) {
    case 0: return {};
    case 1: return {profile(0, 0, 0, 1, 5)};
    case 2: return {profile(1, 1, 1, 5, 1)};
    case 3: return {profile(0, 1, 0, 1, 0), profile(0, 0, 1, 5, 3)};
    case 4: return {profile(1, 0, 0, 0, 0), profile(0, 0, 0, 0, 0), profile(0, 1, 0, 2, 2)};
    case 5: return {profile(2, 3, 2, 0, 0), profile(0, 0, 0, 0, 0)};
    default: return {profile(0, 0, 0, 3, 4), profile(0, 0, 0, 4, 3), profile(0, 0, 0, 2, 6), profile(0, 0, 0, 5, 7)};
  }
}
constexpr int NLIST = 7;
static void exec20(Ctx & x, const Case & c)
{
  if (c.mode == 1) {
    rmw_qos_profile_t q = profile(c.v[0], c.v[1], c.v[2], c.v[3] ? c.v[3] - 2 : -1, c.v[4] ? c.v[4] - 2 : -1, c.v[5]), b = q, want = q;
    if (c.v[3] == 1) {q.deadline = b.deadline = want.deadline = TIM[8];}
    if (c.v[4] == 1) {q.liveliness_lease_duration = b.liveliness_lease_duration = want.liveliness_lease_duration = TIM[8];}
    const auto & S = rmw_qos_profile_services_default;
    if (q.reliability == REL[4]) {want.reliability = S.reliability;}
    if (q.durability == DUR[4]) {want.durability = S.durability;}
    if (q.liveliness == LIV[4]) {want.liveliness = S.liveliness;}
    if (teq(q.deadline, BA_TIME)) {want.deadline = S.deadline;}
    if (teq(q.liveliness_lease_duration, BA_TIME)) {want.liveliness_lease_duration = S.liveliness_lease_duration;}
    rmw_qos_profile_t got = qos_profile_update_best_available_for_services(q);
    x.transitions++;
    if (!same_fast(got, want) || !same_fast(q, b)) {x.fail("service profile of " + pq(b) + ": expected " + pq(want) + " got " + pq(got)); return;}
    x.traces++; x.outcome(hx::hash_str(gm::qos_str(got))); return;
  }
  bool pub = c.v[0]; int mask = c.v[1], missing = c.v[6], qr = RETS[c.v[4]], fr = RETS[c.v[5]];
  auto list = list20(c.v[3]);
  gm::Ledger L; rmw_context_t ctx; memset(&ctx, 0, sizeof ctx); ctx.options.allocator = gm::ledger_allocator(&L);
  rmw_node_t node; memset(&node, 0, sizeof node); node.name = "n"; node.namespace_ = "/"; node.context = &ctx;
  rmw_qos_profile_t q = own(mask, c.v[2]), before = q;
  const char * topic = "/chatter"; long calls = 0; std::string bad;
  auto query = [&](const rmw_node_t * n, rcutils_allocator_t * a, const char * t, bool, rmw_topic_endpoint_info_array_t * out) -> rmw_ret_t {
      calls++;
      if (n != &node || !t || strcmp(t, topic)) {bad = "query for another node or topic";}
      if (!a || a->state != &L || a->allocate != gm::l_alloc || a->deallocate != gm::l_free) {bad = "query without the node's allocator"; return RMW_RET_ERROR;}
      if (!out || out->size || out->info_array) {bad = "query output not zero-initialized"; return RMW_RET_ERROR;}
      if (qr != RMW_RET_OK) {return qr;}
      if (rmw_topic_endpoint_info_array_init_with_size(out, list.size(), a) != RMW_RET_OK) {bad = "internal: init"; return RMW_RET_ERROR;}
      for (size_t i = 0; i < list.size(); ++i) {
        (void)!rmw_topic_endpoint_info_set_node_name(&out->info_array[i], "some_node", a);
        (void)!rmw_topic_endpoint_info_set_topic_type(&out->info_array[i], "some/type", a);
        out->info_array[i].qos_profile = list[i];
      }
      return RMW_RET_OK;
    };
  env_endpoint_array_fini_result = fr; env_endpoint_array_fini_calls = 0;
  rmw_reset_error();
  const rmw_node_t * an = missing == 1 ? nullptr : &node; const char * at = missing == 2 ? nullptr : topic; rmw_qos_profile_t * aq = missing == 3 ? nullptr : &q;
  rmw_ret_t r = pub ? qos_profile_get_best_available_for_topic_publisher(an, at, aq, query) : qos_profile_get_best_available_for_topic_subscription(an, at, aq, query);
  env_endpoint_array_fini_result = 0; rmw_reset_error();
  x.transitions++;
  if (!bad.empty()) {x.fail(bad); return;}
  long wc = missing || !mask ? 0 : 1;
  if (calls != wc) {x.fail(fmt("endpoint information queried %ld times instead of %ld", calls, wc)); return;}
  int wr = missing ? RMW_RET_INVALID_ARGUMENT : !mask ? RMW_RET_OK : qr != RMW_RET_OK ? qr : fr;
  if (r != wr) {x.fail(fmt("returned %d instead of %d", r, wr)); return;}
  if (L.bad_free || !L.live.empty()) {x.fail("endpoint information not released exactly once"); return;}
  if (missing || qr != RMW_RET_OK || !mask) {
    if (!same_fast(q, before)) {x.fail("profile changed: " + pq(before) + " to " + pq(q)); return;}
  } else if (fr == RMW_RET_OK) {
    rmw_qos_profile_t want = adapted(!pub, before, list);
    if (!same_fast(q, want)) {x.fail("from " + pq(before) + " expected " + pq(want) + " got " + pq(q)); return;}
  }
  x.traces++; x.outcome(hx::hash_str(fmt("%d %d ", r, calls > 0) + gm::qos_str(q)));
}
static void enum20(Ctx & x)
{
  for (int pub = 0; pub < 2; ++pub) {
    for (int mask = 0; mask < 32; ++mask) {
      for (int alt = 0; alt < 2; ++alt) {
        for (int l = 0; l < NLIST; ++l) {
          for (int qr = 0; qr < NRET; ++qr) {
            for (int fr = 0; fr < (qr ? 1 : NRET); ++fr) {
              for (int miss = 0; miss < 4; ++miss) {
                if (x.stop()) {return;}
                if (x.mine()) {Case c; c.v = {pub, mask, alt, l, qr, fr, miss}; x.states++; x.run(c);}
              }
            }
          }
        }
      }
    }
  }
  for (int i = 0; i < 125 * 121; ++i) {
    for (int o = 0; o < NOTHER; o += x.thorough ? 1 : 5) {
      if (x.stop()) {return;}
      int a = i; int d[5]; for (int k = 0; k < 3; ++k) {d[k] = a % 5; a /= 5;}
      d[3] = a % 11; d[4] = a / 11;
      if (x.mine()) {Case c; c.mode = 1; c.v = {d[0], d[1], d[2], d[3], d[4], o}; x.states++; x.run(c);}
    }
  }
}
static std::string desc20(const Case & c)
{
  if (c.mode) {return fmt("service variant of policies %d %d %d durations %d %d others %d", c.v[0], c.v[1], c.v[2], c.v[3], c.v[4], c.v[5]);}
  static const char * ms[] = {"none", "node", "topic", "profile"};
  return fmt("%s, best-available fields %d, own values %d, endpoint list %d, query returns %d, release returns %d, missing argument %s", c.v[0] ? "publisher" : "subscription", c.v[1], c.v[2], c.v[3],
      RETS[c.v[4]], RETS[c.v[5]], ms[c.v[6]]);
}

int main(int argc, char ** argv)
{
  return hx::main_impl(argc, argv, [](Ctx & x, hx::Prop & p) {
    if (x.prop == "C16") {p.enumerate = enum16; p.exec = exec16; p.describe = desc16;} else if (x.prop == "C17") {
      p.enumerate = enum17; p.exec = [](Ctx & c, const Case & k) {if (k.mode) {inv17(c, k);} else {exec17(c, k);}}; p.describe = desc17;
    } else if (x.prop == "C18" || x.prop == "C19") {
      g_sub = x.prop == "C18"; p.enumerate = enum18; p.exec = exec18; p.describe = desc18;
    } else if (x.prop == "C20") {p.enumerate = enum20; p.exec = exec20; p.describe = desc20;} else {return false;}
    return true;
  });
}
