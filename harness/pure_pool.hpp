// The pool of calls of the free functions shared by h_pure (C28) and h_mem (C30).
#pragma once
#include <sys/stat.h>

#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

#include "graph_model.hpp"
#include "rcutils/error_handling.h"
#include "rmw/error_handling.h"
#include "rmw_dds_common/gid_utils.hpp"
#include "rmw_dds_common/qos.hpp"
#include "rmw_dds_common/security.hpp"
#include "rmw_dds_common/time_utils.hpp"
#ifdef HX_SCHED
using sched::NoTrack; using sched::Track;
#else
struct Track {Track() {} ~Track() {}};
struct NoTrack {NoTrack() {} ~NoTrack() {}};
#endif
using hx::fmt;
using namespace rmw_dds_common;  // NOLINT

struct Call {std::string name; std::function<std::string()> f;};
static std::vector<Call> g_pool;
static std::string g_dir;
static std::string clean(const std::string & s)
{
  std::string o = s; for (size_t p; (p = o.find(g_dir)) != std::string::npos; ) {o.replace(p, g_dir.size(), "$");}
  return o;
}
static rmw_qos_profile_t prof(int rel, int dur, int live, uint64_t dl, uint64_t lease)
{
  rmw_qos_profile_t q; memset(&q, 0, sizeof q);
  q.history = RMW_QOS_POLICY_HISTORY_KEEP_LAST; q.depth = 5; q.reliability = static_cast<rmw_qos_reliability_policy_t>(rel); q.durability = static_cast<rmw_qos_durability_policy_t>(dur);
  q.liveliness = static_cast<rmw_qos_liveliness_policy_t>(live); q.deadline = {dl, 0}; q.liveliness_lease_duration = {lease, 0}; return q;
}
static const int REL = RMW_QOS_POLICY_RELIABILITY_RELIABLE, BE = RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT, VOL = RMW_QOS_POLICY_DURABILITY_VOLATILE, TL = RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL,
  AUTO = RMW_QOS_POLICY_LIVELINESS_AUTOMATIC, MAN = RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC, BAR = RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE, BAD = RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE,
  BAL = RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE;
static rmw_qos_profile_t best() {auto q = prof(BAR, BAD, BAL, 0, 0); q.deadline = RMW_QOS_DEADLINE_BEST_AVAILABLE; q.liveliness_lease_duration = RMW_QOS_LIVELINESS_LEASE_DURATION_BEST_AVAILABLE; return q;}
static std::vector<rmw_topic_endpoint_info_t> infos(int k)
{
  std::vector<rmw_qos_profile_t> q;
  switch (k) {
    case 0: break;
    case 1: q = {prof(REL, TL, MAN, 7, 9)}; break;
    case 2: q = {prof(BE, VOL, AUTO, 3, 2)}; break;
    case 3: q = {prof(REL, TL, MAN, 7, 9), prof(BE, VOL, AUTO, 3, 2), prof(REL, VOL, MAN, 0, 11)}; break;
    default: for (int i = 0; i < 40; ++i) {q.push_back(prof(i == 20 ? BE : REL, i == 30 ? VOL : TL, i == 10 ? AUTO : MAN, static_cast<uint64_t>(50 + i), static_cast<uint64_t>(90 - i)));}
  }
  std::vector<rmw_topic_endpoint_info_t> v(q.size());
  for (size_t i = 0; i < q.size(); ++i) {v[i] = rmw_get_zero_initialized_topic_endpoint_info(); v[i].qos_profile = q[i];}
  return v;
}
static void put(const std::string & p, const std::string & c) {FILE * f = fopen(p.c_str(), "w"); if (!f) {_exit(3);} fwrite(c.data(), 1, c.size(), f); fclose(f);}
static void make_pool()
{
  const char * sc = getenv("HX_SCRATCH"); g_dir = std::string(sc ? sc : "/tmp") + "/pure"; mkdir(g_dir.c_str(), 0755);
  static const char * FN[] = {"identity_ca.cert.pem", "cert.pem", "key.pem", "permissions_ca.cert.pem", "governance.p7s", "permissions.p7s", "crl.pem"};
  for (int d = 0; d < 8; ++d) {
    if (d == 4) {continue;}   // missing
    std::string p = g_dir + fmt("/d%d", d); mkdir(p.c_str(), 0755);
    for (int i = 0; i < 7; ++i) {if ((d == 2 && i == 4) || (d == 0 && i == 6) || (d == 6 && i == 2)) {continue;} put(p + "/" + FN[i], fmt("content %d %d", d, i));}
    static const char * P11[] = {"identity_ca.cert.p11", "cert.p11", "key.p11", "permissions_ca.cert.p11"};
    // 5 other schemes in the .p11 files, 6 no words in them and no key.pem, 7 directories of their names
    if (d == 5 || d == 6) {for (const char * n : P11) {put(p + "/" + n, d == 5 ? "file:pkcs11:x" : " \n");}}
    if (d == 7) {for (const char * n : P11) {mkdir((p + "/" + n).c_str(), 0755);}}
    if (d == 3) {for (const char * n : P11) {put(p + "/" + n, std::string("pkcs11:object=") + n);}}
  }
  auto P = [](const std::string & n, std::function<std::string()> f) {g_pool.push_back({n, f});};
  // QoS compatibility, with buffers of several sizes
  struct QP {const char * n; rmw_qos_profile_t a, b; int buf;};
  std::vector<QP> qp = {{"compatible", prof(REL, TL, MAN, 1, 1), prof(BE, VOL, AUTO, 5, 5), 200}, {"reliability and durability", prof(BE, VOL, AUTO, 1, 1), prof(REL, TL, AUTO, 5, 5), 300},
    {"everything wrong", prof(BE, VOL, AUTO, 50, 50), prof(REL, TL, MAN, 5, 5), 600}, {"everything wrong, short buffer", prof(BE, VOL, AUTO, 50, 50), prof(REL, TL, MAN, 5, 5), 12},
    {"deadline, no buffer", prof(REL, TL, AUTO, 0, 1), prof(REL, TL, AUTO, 5, 5), 0}, {"unknown", prof(RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT, TL, AUTO, 1, 1), prof(REL, TL, AUTO, 5, 5), 200},
    {"liveliness", prof(REL, TL, AUTO, 1, 9), prof(REL, VOL, MAN, 5, 5), 150}};
  for (auto & q : qp) {
    P(std::string("check(") + q.n + ")", [q]() {
        std::vector<char> b(static_cast<size_t>(q.buf) + 8, '?'); rmw_qos_compatibility_type_t c = static_cast<rmw_qos_compatibility_type_t>(77); rmw_ret_t r;
        {Track t; r = qos_profile_check_compatible(q.a, q.b, &c, q.buf ? b.data() : nullptr, static_cast<size_t>(q.buf));}
        rmw_reset_error(); return fmt("%d %d ", r, c) + (q.buf ? std::string(b.data()) : "") + "|" + std::string(b.data() + q.buf, 8);
      });
  }
  P("check(null output)", []() {rmw_ret_t r; char b[50] = "x"; {Track t; r = qos_profile_check_compatible(prof(REL, TL, AUTO, 1, 1), prof(REL, TL, AUTO, 1, 1), nullptr, b, 50);} rmw_reset_error(); return fmt("%d %s", r, b);});
  // adaptation
  for (int k = 0; k < 5; ++k) {
    for (int who = 0; who < 2; ++who) {
      P(fmt("best_available_for_%s(list %d)", who ? "publisher" : "subscription", k), [k, who]() {
          auto v = infos(k); rmw_topic_endpoint_info_array_t a; a.size = v.size(); a.info_array = v.data(); auto q = best(); rmw_ret_t r;
          {Track t; r = who ? qos_profile_get_best_available_for_publisher(&a, &q) : qos_profile_get_best_available_for_subscription(&a, &q);}
          rmw_reset_error(); return fmt("%d ", r) + gm::qos_str(q);
        });
    }
  }
  for (int k : {0, 3, 9}) {
    for (int who = 0; who < 2; ++who) {
      P(fmt("best_available_for_topic_%s(%s)", who ? "publisher" : "subscription", k == 9 ? "query fails" : fmt("list %d", k).c_str()), [k, who]() {
          rmw_node_t node; memset(&node, 0, sizeof node); rmw_context_t cx; memset(static_cast<void *>(&cx), 0, sizeof cx); cx.options.allocator = rcutils_get_default_allocator(); node.context = &cx; auto q = best(); rmw_ret_t r; std::string seen; static const char * topic = "/a_topic";
          GetEndpointInfoByTopicFunction fn = [&](const rmw_node_t * n, rcutils_allocator_t * al, const char * tp, bool dem, rmw_topic_endpoint_info_array_t * out) -> rmw_ret_t {
              NoTrack nt; seen = fmt("%d %s %d ", n == &node, tp, dem); if (k == 9) {return RMW_RET_ERROR;}
              auto v = infos(k); if (rmw_topic_endpoint_info_array_init_with_size(out, v.size(), al) != RMW_RET_OK) {return RMW_RET_BAD_ALLOC;}
              for (size_t i = 0; i < v.size(); ++i) {out->info_array[i].qos_profile = v[i].qos_profile;}
              return RMW_RET_OK;
            };
          {Track t; r = who ? qos_profile_get_best_available_for_topic_publisher(&node, topic, &q, fn) : qos_profile_get_best_available_for_topic_subscription(&node, topic, &q, fn);}
          rmw_reset_error(); return fmt("%d ", r) + seen + gm::qos_str(q);
        });
    }
  }
  for (int k = 0; k < 3; ++k) {
    P(fmt("best_available_for_services(%d)", k), [k]() {
        auto in = k == 0 ? best() : k == 1 ? prof(BAR, VOL, AUTO, 4, 4) : prof(BE, BAD, BAL, 6, 7); rmw_qos_profile_t q;
        {Track t; q = qos_profile_update_best_available_for_services(in);} return gm::qos_str(q);
      });
  }
  // type hashes
  for (int k = 0; k < 3; ++k) {
    P(fmt("encode_type_hash(%d)", k), [k]() {
        auto h = gm::mkhash(static_cast<uint8_t>(k * 90)); if (k == 2) {h.version = 0;} std::string s = "old"; rmw_ret_t r; {Track t; r = encode_type_hash_for_user_data_qos(h, s);}
        rmw_reset_error(); return fmt("%d ", r) + s;
      });
  }
  for (int k = 0; k < 2; ++k) {   // into a string that holds the result already, or another one
    P(fmt("encode_type_hash(twice,%d)", k), [k]() {
        auto h = gm::mkhash(77), g = gm::mkhash(static_cast<uint8_t>(k ? 77 : 30)); std::string s; rmw_ret_t r; {Track t; r = encode_type_hash_for_user_data_qos(g, s); r += encode_type_hash_for_user_data_qos(h, s);}
        rmw_reset_error(); return fmt("%d ", r) + s;
      });
  }
  auto hex = [](int seed) {std::string s; for (int i = 0; i < 32; ++i) {s += fmt("%02x", (seed + i * 7) & 255);} return s;};
  std::vector<std::string> ud = {"typehash=RIHS01_" + hex(3) + ";", "a=b;typehash=RIHS01_" + hex(140) + ";c=d;", "nothing=here;", "typehash=RIHS01_zz;", ""};
  for (auto & u : ud) {
    P("parse_type_hash(" + u.substr(0, 24) + ")", [u]() {
        rosidl_type_hash_t h; memset(&h, 0x5a, sizeof h); rmw_ret_t r; {Track t; r = parse_type_hash_from_user_data(reinterpret_cast<const uint8_t *>(u.data()), u.size(), h);}
        rmw_reset_error(); return fmt("%d ", r) + (r == RMW_RET_OK ? gm::hash_str(h) : "");
      });
  }
  P("parse_type_hash(twice)", [ud]() {
      rosidl_type_hash_t h; rmw_ret_t r = 0; {Track t; for (size_t k : {size_t{1}, size_t{0}, size_t{0}}) {r += parse_type_hash_from_user_data(reinterpret_cast<const uint8_t *>(ud[k].data()), ud[k].size(), h);}}
      rmw_reset_error(); return fmt("%d ", r) + gm::hash_str(h);
    });
  P("best_available_for_subscription(twice)", []() {
      auto v = infos(3); rmw_topic_endpoint_info_array_t a; a.size = v.size(); a.info_array = v.data(); auto q = best(); rmw_ret_t r;
      {Track t; r = qos_profile_get_best_available_for_subscription(&a, &q); r += qos_profile_get_best_available_for_subscription(&a, &q);} rmw_reset_error(); return fmt("%d ", r) + gm::qos_str(q);
    });
  P("security(twice)", []() {
      std::unordered_map<std::string, std::string> r; bool ok; {Track t; ok = get_security_files(true, "p:", g_dir + "/d3", r); ok = get_security_files("file://", g_dir + "/d1", r) && ok;}
      std::map<std::string, std::string> s(r.begin(), r.end()); std::string o = fmt("%d ", ok); for (auto & e : s) {o += e.first + "=" + clean(e.second) + ";";} return o;
    });
  // time
  std::vector<rmw_time_t> tm = {{0, 0}, {1, 5}, {0x7fffffff, 999999999}, {0x80000000ull, 1}, {~0ull, ~0ull}, {3, 2500000000ull}};
  for (auto & d : tm) {
    P(fmt("clamp(%llx,%llx)", static_cast<unsigned long long>(d.sec), static_cast<unsigned long long>(d.nsec)), [d]() {
        rmw_time_t q; {Track t; q = clamp_rmw_time_to_dds_time(d);} return fmt("%llu.%llu", static_cast<unsigned long long>(q.sec), static_cast<unsigned long long>(q.nsec));
      });
  }
  // gids
  for (int k = 0; k < 3; ++k) {
    P(fmt("gid(%d)", k), [k]() {
        rmw_gid_t a = gm::to_rmw(gm::mkgid(static_cast<uint8_t>(k), static_cast<uint8_t>(200 - k))), b = a, c; b.data[7] ^= static_cast<uint8_t>(k); msg::Gid m; memset(&c, 0x77, sizeof c); std::ostringstream o; bool e, l;
        {Track t; e = a == b; l = Compare_rmw_gid_t()(a, b); convert_gid_to_msg(&a, &m); convert_msg_to_gid(&m, &c); o << a;}
        return fmt("%d %d ", e, l) + gm::gs(gm::from_msg(m)) + " " + fmt("%d ", memcmp(c.data, a.data, 16)) + o.str();
      });
  }
  // security files
  for (int d = 0; d < 8; ++d) {
    for (int how = d > 4 ? 2 : 0; how < (d >= 3 && d != 4 ? 3 : 2); ++how) {
      if (how == 1 && d == 2) {continue;}
      P(fmt("security(d%d,%s)", d, how == 0 ? "plain" : how == 1 ? "other prefix" : "pkcs11"), [d, how]() {
          std::unordered_map<std::string, std::string> r; bool ok; std::string pre = how == 1 ? "" : "file://", root = g_dir + fmt("/d%d", d);
          {Track t; ok = how == 2 ? get_security_files(true, pre, root, r) : get_security_files(pre, root, r);}
          std::map<std::string, std::string> s(r.begin(), r.end()); std::string o = fmt("%d ", ok); if (ok) {for (auto & e : s) {o += e.first + "=" + clean(e.second) + ";";}} return o;
        });
    }
  }
}
