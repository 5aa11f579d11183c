// C28: the free functions (QoS, type hash, time, gid, security files) keep no state: every sequence of calls from a pool gives
// each call the answer it gives alone in a fresh process, and every schedule of concurrent calls is free of data races.
#include <sys/stat.h>
#include <sys/wait.h>

#include <iomanip>
#include <sstream>
#include <unordered_map>

#include "conc.hpp"
#define HX_SCHED
#include "graph_model.hpp"
#include "pure_pool.hpp"
#include "rcutils/error_handling.h"
#include "rmw/error_handling.h"
#include "rmw_dds_common/gid_utils.hpp"
#include "rmw_dds_common/qos.hpp"
#include "rmw_dds_common/security.hpp"
#include "rmw_dds_common/time_utils.hpp"

using gm::Gid;
using namespace rmw_dds_common;  // NOLINT

static std::vector<std::string> g_ref;
// every call of the pool alone, in a process of its own
static void make_refs()
{
  fflush(stdout); fflush(stderr);
  for (auto & c : g_pool) {
    int fd[2]; if (pipe(fd)) {_exit(3);}
    pid_t p = fork();
    if (p == 0) {
      close(fd[0]); std::string s = "(died)"; try {s = c.f();} catch (...) {s = "(threw)";}
      if (write(fd[1], s.data(), s.size()) < 0) {_exit(1);}
      _exit(0);
    }
    close(fd[1]); std::string s; char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) {s.append(b, static_cast<size_t>(n));} close(fd[0]);
    int st; waitpid(p, &st, 0); g_ref.push_back(WIFEXITED(st) ? s : "(died)");
  }
}
// neighbours: arguments that differ from a base in one place, in the same storage; an answer remembered under an incomplete key shows
using Arg = std::vector<int64_t>;
struct Fam {std::string name; std::vector<Arg> bases; std::function<std::vector<Arg>(const Arg &)> near; std::function<std::string(const Arg &)> f;};
static std::vector<Fam> g_fam;
static std::vector<Arg> bits(const Arg & b, size_t from, size_t to, int n)
{
  std::vector<Arg> v; for (size_t i = from; i < to; ++i) {for (int k = 0; k < n; ++k) {Arg a = b; a[i] = static_cast<int64_t>(static_cast<uint64_t>(a[i]) ^ (1ull << k)); v.push_back(a);}} return v;
}
// a profile as seven numbers: reliability, durability, liveliness, deadline, lease (seconds and nanoseconds)
static rmw_qos_profile_t prof_of(const int64_t * a)
{
  auto q = prof(static_cast<int>(a[0]), static_cast<int>(a[1]), static_cast<int>(a[2]), 0, 0);
  q.deadline = {static_cast<uint64_t>(a[3]), static_cast<uint64_t>(a[4])}; q.liveliness_lease_duration = {static_cast<uint64_t>(a[5]), static_cast<uint64_t>(a[6])}; return q;
}
static std::vector<Arg> prof_near(const Arg & b, size_t at, bool durations)
{
  std::vector<Arg> v; auto set = [&](size_t i, int64_t x) {if (b[at + i] != x) {Arg a = b; a[at + i] = x; v.push_back(a);}};
  for (int k = 0; k <= 4; ++k) {set(0, k); set(1, k); set(2, k == 2 ? 4 : k);}
  set(0, BAR); set(1, BAD); set(2, BAL);
  if (durations) {for (size_t i : {size_t{3}, size_t{5}}) {for (int k = 0; k < 33; ++k) {set(i, b[at + i] ^ (1ll << k));} for (int k = 0; k < 29; ++k) {set(i + 1, b[at + i + 1] ^ (1ll << k));}}}
  return v;
}
static void make_fams()
{
  if (!g_fam.empty()) {return;}
  auto m64 = [](uint64_t x) {return static_cast<int64_t>(x);};
  g_fam.push_back({"clamp", {{0, 0}, {3, 5}, {0x7fffffff, 999999999}, {1, 1000000007}, {m64(~0ull), m64(~0ull)}}, [](const Arg & b) {return bits(b, 0, 2, 64);}, [](const Arg & a) {
      rmw_time_t t = {static_cast<uint64_t>(a[0]), static_cast<uint64_t>(a[1])}, q; {Track k; q = clamp_rmw_time_to_dds_time(t);}
      return fmt("%llu.%llu", static_cast<unsigned long long>(q.sec), static_cast<unsigned long long>(q.nsec));
    }});
  Arg g0(17), g1(17); for (int i = 0; i < 16; ++i) {g0[static_cast<size_t>(i)] = 0; g1[static_cast<size_t>(i)] = 255 - i * 3;}
  g_fam.push_back({"gid", {g0, g1}, [](const Arg & b) {auto v = bits(b, 0, 16, 8); Arg o = b; o[16] = 1; v.push_back(o); return v;}, [g1](const Arg & a) {
      static rmw_gid_t x, b, c; msg::Gid m; static const char * ID[] = {"one", "other"}; memset(&x, 0, sizeof x); memset(&b, 0, sizeof b); memset(&c, 0, sizeof c);
      for (size_t i = 0; i < 16; ++i) {x.data[i] = static_cast<uint8_t>(a[i]); b.data[i] = static_cast<uint8_t>(g1[i]);} x.implementation_identifier = ID[a[16]]; std::ostringstream o; bool e, l, r;
      {Track t; e = x == b; l = Compare_rmw_gid_t()(x, b); r = Compare_rmw_gid_t()(b, x); convert_gid_to_msg(&x, &m); convert_msg_to_gid(&m, &c); o << x;}
      return fmt("%d %d %d ", e, l, r) + gm::gs(gm::from_msg(m)) + fmt(" %d ", memcmp(c.data, x.data, 16)) + o.str();
    }});
  Arg h0(33), h1(33); h0[32] = h1[32] = 1; for (int i = 0; i < 32; ++i) {h1[static_cast<size_t>(i)] = (i * 41 + 7) & 255;}
  g_fam.push_back({"encode_type_hash", {h0, h1}, [](const Arg & b) {auto v = bits(b, 0, 32, 8); Arg o = b; o[32] = 0; v.push_back(o); return v;}, [](const Arg & a) {
      static rosidl_type_hash_t h; h.version = static_cast<uint8_t>(a[32]); for (size_t i = 0; i < 32; ++i) {h.value[i] = static_cast<uint8_t>(a[i]);} std::string s = "old"; rmw_ret_t r;
      {Track t; r = encode_type_hash_for_user_data_qos(h, s);} rmw_reset_error(); return fmt("%d ", r) + s;
    }});
  std::string hx1; for (int i = 0; i < 32; ++i) {hx1 += fmt("%02x", (i * 41 + 7) & 255);}
  std::vector<Arg> texts; for (const std::string & u : {"typehash=RIHS01_" + hx1 + ";", "a=b;typehash=RIHS01_" + hx1 + ";c=d;", std::string("nothing=here;")}) {texts.push_back(Arg(u.begin(), u.end()));}
  g_fam.push_back({"parse_type_hash", texts, [](const Arg & b) {auto v = bits(b, 0, b.size(), 7); for (size_t i = 0; i < b.size(); ++i) {v.push_back(Arg(b.begin(), b.begin() + static_cast<std::ptrdiff_t>(i)));} return v;}, [](const Arg & a) {
      static uint8_t u[512]; for (size_t i = 0; i < a.size(); ++i) {u[i] = static_cast<uint8_t>(a[i]);} rosidl_type_hash_t h; memset(&h, 0x5a, sizeof h); rmw_ret_t r;
      {Track t; r = parse_type_hash_from_user_data(u, a.size(), h);} rmw_reset_error(); return fmt("%d ", r) + (r == RMW_RET_OK ? gm::hash_str(h) : "");
    }});
  // compatibility: publisher, subscription, buffer size
  auto pair = [](Arg a, const Arg & b, int n) {a.insert(a.end(), b.begin(), b.end()); a.push_back(n); return a;};
  Arg good = {REL, TL, MAN, 1, 1, 1, 1}, lax = {BE, VOL, AUTO, 5, 5, 5, 5}, none = {RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT, TL, AUTO, 0, 0, 0, 0};
  g_fam.push_back({"check_compatible", {pair(good, lax, 400), pair(lax, good, 600), pair(lax, good, 90), pair(none, lax, 300)}, [](const Arg & b) {
      auto v = prof_near(b, 0, true), w = prof_near(b, 7, true); v.insert(v.end(), w.begin(), w.end()); for (int n : {0, 1, 2, 40, 89, 91, 200, 399}) {Arg a = b; a[14] = n; v.push_back(a);} return v;
    }, [](const Arg & a) {
      static char b[1024]; size_t n = static_cast<size_t>(a[14]); memset(b, '?', sizeof b); rmw_qos_compatibility_type_t c = static_cast<rmw_qos_compatibility_type_t>(77); rmw_ret_t r;
      {Track t; r = qos_profile_check_compatible(prof_of(&a[0]), prof_of(&a[7]), &c, n ? b : nullptr, n);} rmw_reset_error(); return fmt("%d %d ", r, c) + (n ? std::string(b) : "");
    }});
  // adaptation: the profile, three endpoints, number of endpoints
  Arg best = {BAR, BAD, BAL, static_cast<int64_t>(rmw_time_t(RMW_QOS_DEADLINE_BEST_AVAILABLE).sec), static_cast<int64_t>(rmw_time_t(RMW_QOS_DEADLINE_BEST_AVAILABLE).nsec),
    static_cast<int64_t>(rmw_time_t(RMW_QOS_LIVELINESS_LEASE_DURATION_BEST_AVAILABLE).sec), static_cast<int64_t>(rmw_time_t(RMW_QOS_LIVELINESS_LEASE_DURATION_BEST_AVAILABLE).nsec)};
  auto quad = [&](const Arg & a, const Arg & b, const Arg & c, int n) {Arg r = best; for (auto * x : {&a, &b, &c}) {r.insert(r.end(), x->begin(), x->end());} r.push_back(n); return r;};
  for (int who = 0; who < 2; ++who) {
    g_fam.push_back({who ? "best_available_for_publisher" : "best_available_for_subscription", {quad(good, good, good, 3), quad(good, lax, {REL, VOL, MAN, 0, 0, 11, 3}, 3)}, [](const Arg & b) {
        auto v = prof_near(b, 0, false); for (size_t k = 1; k < 4; ++k) {auto w = prof_near(b, 7 * k, true); v.insert(v.end(), w.begin(), w.end());} for (int n : {0, 1, 2}) {Arg a = b; a[28] = n; v.push_back(a);} return v;
      }, [who](const Arg & a) {
        static rmw_topic_endpoint_info_t e[3]; rmw_topic_endpoint_info_array_t l; l.size = static_cast<size_t>(a[28]); l.info_array = e;
        for (size_t i = 0; i < 3; ++i) {e[i] = rmw_get_zero_initialized_topic_endpoint_info(); e[i].qos_profile = prof_of(&a[7 * (i + 1)]);}
        auto q = prof_of(&a[0]); rmw_ret_t r; {Track t; r = who ? qos_profile_get_best_available_for_publisher(&l, &q) : qos_profile_get_best_available_for_subscription(&l, &q);}
        rmw_reset_error(); return fmt("%d ", r) + gm::qos_str(q);
      }});
  }
  g_fam.push_back({"best_available_for_services", {best, good}, [](const Arg & b) {return prof_near(b, 0, true);}, [](const Arg & a) {
      rmw_qos_profile_t q; {Track t; q = qos_profile_update_best_available_for_services(prof_of(&a[0]));} return gm::qos_str(q);
    }});
  // security: which of the 11 files are there, PKCS#11, prefix, form of the path
  g_fam.push_back({"get_security_files", {{0x07f, 0, 0, 0}, {0x7ff, 1, 0, 0}, {0x7f8, 1, 1, 1}}, [](const Arg & b) {
      auto v = bits(b, 0, 1, 11); for (size_t i : {size_t{1}, size_t{2}, size_t{3}}) {for (int k = 0; k < 3; ++k) {if (b[i] != k && (i != 1 || k < 2)) {Arg a = b; a[i] = k; v.push_back(a);}}} return v;
    }, [](const Arg & a) {
      static const char * FN[] = {"governance.p7s", "permissions.p7s", "crl.pem", "identity_ca.cert.pem", "cert.pem", "key.pem", "permissions_ca.cert.pem", "identity_ca.cert.p11", "cert.p11", "key.p11", "permissions_ca.cert.p11"};
      std::string d = g_dir + "/near"; mkdir(d.c_str(), 0755);
      for (int i = 0; i < 11; ++i) {std::string p = d + "/" + FN[i]; if (a[0] >> i & 1) {put(p, i >= 7 ? std::string("pkcs11:object=") + FN[i] : "x");} else {unlink(p.c_str());}}
      static std::string pre, root; static const char * PRE[] = {"file://", "", "file:/"}; pre = PRE[a[2]]; root = a[3] == 0 ? d : a[3] == 1 ? d + "/" : d + "/../near";
      std::unordered_map<std::string, std::string> r; bool ok; {Track t; ok = get_security_files(a[1] != 0, pre, root, r);}
      std::map<std::string, std::string> s(r.begin(), r.end()); std::string o = fmt("%d ", ok); if (ok) {for (auto & e : s) {o += e.first + "=" + clean(e.second) + ";";}} return o;
    }});
}
// the answers of a sequence of calls, in a process of its own
static std::vector<std::string> apart(const std::function<std::string(size_t)> & f, size_t n)
{
  int fd[2]; if (pipe(fd)) {_exit(3);}
  pid_t p = fork();
  if (p == 0) {
    close(fd[0]);
    for (size_t i = 0; i < n; ++i) {std::string s = "(died)"; try {s = f(i);} catch (...) {s = "(threw)";} s += '\n'; if (write(fd[1], s.data(), s.size()) < 0) {_exit(1);}}
    _exit(0);
  }
  close(fd[1]); std::string s; char b[4096]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) {s.append(b, static_cast<size_t>(k));} close(fd[0]);
  int st; waitpid(p, &st, 0); std::vector<std::string> v; size_t at = 0;
  for (size_t i = 0; i < n; ++i) {size_t e = s.find('\n', at); if (e == std::string::npos) {v.push_back("(died)");} else {v.push_back(s.substr(at, e - at)); at = e + 1;}}
  return v;
}
static std::string arg_str(const Arg & a) {std::string s; for (auto k : a) {s += fmt("%llx,", static_cast<unsigned long long>(k));} return s;}
static void exec_near(Ctx & x, const Case & c)
{
  const Fam & f = g_fam.at(static_cast<size_t>(c.v[0])); const Arg & b = f.bases.at(static_cast<size_t>(c.v[1])); Arg n = f.near(b).at(static_cast<size_t>(c.v[2]));
  static std::map<std::pair<int, int>, std::string> base; auto & rb = base[{c.v[0], c.v[1]}];
  if (rb.empty()) {rb = apart([&](size_t) {return f.f(b);}, 1)[0];}
  std::string rn = apart([&](size_t) {return f.f(n);}, 1)[0];
  auto r = apart([&](size_t i) {return f.f(i & 1 ? n : b);}, 4); x.transitions += 5; x.traces++;
  for (size_t i = 0; i < 4; ++i) {
    const std::string & w = i & 1 ? rn : rb;
    if (r[i] != w) {x.fail(fmt("call %zu of ", i + 1) + f.name + " with " + arg_str(b) + " and " + arg_str(n) + " in turn gave " + r[i] + " but alone gives " + w); return;}
  }
  x.outcome(hx::hash_str(rn));
}
static std::string one(int k) {return g_pool.at(static_cast<size_t>(k)).f();}
static void exec(Ctx & x, const Case & c)
{
  if (g_ref.empty()) {make_pool(); make_refs(); make_fams();}
  if (c.mode == 2) {exec_near(x, c); return;}
  if (c.mode == 0) {
    for (size_t i = 0; i < c.v.size(); ++i) {
      std::string r = one(c.v[i]); x.transitions++;
      if (r != g_ref[static_cast<size_t>(c.v[i])]) {x.fail(fmt("call %zu, ", i + 1) + g_pool[static_cast<size_t>(c.v[i])].name + ", gave " + r + " but alone gives " + g_ref[static_cast<size_t>(c.v[i])]); return;}
      x.outcome(hx::hash_str(r));
    }
    x.traces++; return;
  }
  std::vector<int> s; Prog p = decode(c.v, s);
  sched::begin(s.data(), static_cast<int>(s.size()), g_bound, true);
  std::vector<std::vector<std::string>> res(p.size()); std::vector<Thread> ts(p.size());
  for (size_t t = 0; t < p.size(); ++t) {
    res[t].resize(p[t].size());
    ts[t].body = [&, t]() {for (size_t i = 0; i < p[t].size(); ++i) {if (i) {sched::point();} res[t][i] = one(p[t][i]);}};
  }
  if (!execute(x, ts)) {return;}
  if (sched::race()) {x.fail(sched::race()); return;}
  for (size_t t = 0; t < p.size(); ++t) {
    for (size_t i = 0; i < p[t].size(); ++i) {
      if (res[t][i] != g_ref[static_cast<size_t>(p[t][i])]) {x.fail(fmt("thread %zu: ", t) + g_pool[static_cast<size_t>(p[t][i])].name + " gave " + res[t][i] + " but alone gives " + g_ref[static_cast<size_t>(p[t][i])]);}
    }
  }
  x.outcome(hx::hash_str(fmt("%d %d", p[0][0], p[1][0])));
  sched::finish();
}
static std::string describe(const Case & c)
{
  std::string d;
  if (c.mode == 2) {return g_fam[static_cast<size_t>(c.v[0])].name + fmt(": base %d and neighbour %d in turn", c.v[1], c.v[2]);}
  if (c.mode == 0) {for (int k : c.v) {d += g_pool[static_cast<size_t>(k)].name + "; ";} return d;}
  std::vector<int> s; Prog p = decode(c.v, s);
  for (auto & t : p) {d += "{"; for (int k : t) {d += g_pool[static_cast<size_t>(k)].name + "; ";} d += "} ";}
  return d + sched_text(s);
}
static void enumerate(Ctx & x)
{
  make_pool(); make_refs(); make_fams();
  // (first: no call has been made in this process)
  for (size_t f = 0; f < g_fam.size(); ++f) {
    for (size_t b = 0; b < g_fam[f].bases.size(); ++b) {
      size_t k = g_fam[f].near(g_fam[f].bases[b]).size();
      for (size_t i = 0; i < k && !x.stop(); ++i) {if (x.mine()) {Case c; c.mode = 2; c.v = {static_cast<int>(f), static_cast<int>(b), static_cast<int>(i)}; x.states++; x.run(c);}}
    }
  }
  int n = static_cast<int>(g_pool.size()), len = x.thorough ? 4 : 3; std::vector<int> pre;
  if (x.shard == 0) {x.count("calls in the pool", static_cast<uint64_t>(n));}
  // the same call over and over, then every other one
  for (int a = 0; a < n; ++a) {
    for (int b = 0; b < n; ++b) {
      if (x.stop()) {return;}
      if (x.mine()) {Case c; for (int i = 0; i < (x.thorough ? 300 : 40); ++i) {c.v.push_back(a);} c.v.push_back(b); x.states++; x.run(c);}
    }
  }
  std::function<void()> rec = [&]() {
      if (static_cast<int>(pre.size()) == len) {if (x.mine()) {Case c; c.v = pre; x.states++; x.run(c);} return;}
      for (int k = 0; k < n && !x.stop(); ++k) {pre.push_back(k); rec(); pre.pop_back();}
    };
  rec();
  for (int a = 0; a < n; ++a) {
    for (int b = a; b < n; ++b) {
      explore(x, 1, enc({{a}, {b}}));
      for (int c = 0; c < n; ++c) {explore(x, 1, enc({{a, c}, {b}})); if (b <= c) {explore(x, 1, enc({{a}, {b}, {c}}));}}
    }
  }
  x.count("max_schedules_of_a_program", g_cap);
}
int main(int argc, char ** argv)
{
  return hx::main_impl(argc, argv, [](Ctx & x, hx::Prop & p) {
    if (x.prop != "C28") {return false;}
    p.enumerate = enumerate; p.exec = exec; p.describe = [](const Case & c) {if (g_ref.empty()) {make_pool(); make_refs(); make_fams();} return describe(c);};
    return true;
  });
}
