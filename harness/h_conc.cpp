// C10-C13: every schedule (over synchronization operations) of bounded concurrent programs on the real GraphCache and
// Context, under the controlled scheduler of sched.cpp.
#include <map>
#include <memory>
#include <set>

#include "graph_model.hpp"
#include "rmw/error_handling.h"
#include "rmw_dds_common/context.hpp"
#include "conc.hpp"

using gm::Gid;
using gm::MNode;
using gm::Msg;
using gm::Op;
using rmw_dds_common::Context;
using rmw_dds_common::GraphCache;

static int g_clock;
struct Rec {int inv = 0, resp = 0; std::string res; int code = 0;};
static void stamp(void * r) {static_cast<Rec *>(r)->inv = ++g_clock;}
struct Timed   // an operation: starts when its thread first goes on after a scheduling point, ends at once
{
  Rec & r;
  explicit Timed(Rec & x) : r(x) {r.inv = 0; sched::on_next_resume(stamp, &r);}
  ~Timed() {sched::on_next_resume(nullptr, nullptr); if (!r.inv) {r.inv = ++g_clock;} r.resp = ++g_clock;}
};

// ---------------------------------------------------------------- graph operations (codes < 100)
// (namespace scope: the guard of a function-local static would be a scheduling point)
static gm::Pools make_pools()
{
  gm::Pools P = gm::default_pools();
  P.node = {{"talker", "/"}, {"listener", "/"}, {"remote", "/ns"}, {"fresh", "/"}};
  P.gid.push_back(P.part[0]); P.gid.push_back(P.part[1]);   // endpoints with the gids of participants
  P.topic = {"rt/chat", "rt/other"}; P.type = {"pkg::Str", "pkg::Int"};
  P.msg = {gm::MsgSpec{{gm::mknode("/ns", "remote", {P.gid[1]}, {P.gid[0]}), gm::mknode("/", "talker", {}, {P.gid[3]})}}, gm::MsgSpec{{}},
    gm::MsgSpec{{gm::mknode("/ns", "remote2", {}, {P.gid[0], P.gid[1]})}}};
  return P;
}
static gm::Pools g_pools = make_pools();
static gm::Pools & pools() {return g_pools;}
static void populate(GraphCache & gc)
{
  auto & P = pools();
  for (Op o : {gm::op_part(0, 0), gm::op_node(gm::ADD_NODE, 0, 0), gm::op_node(gm::ADD_NODE, 0, 1), gm::op_assoc(gm::AS_R, 2, 0, 0), gm::op_assoc(gm::AS_W, 3, 0, 1), gm::op_part(1, 1), gm::op_update(1, 0),
      gm::op_add(false, 0, 0, 0, 0, 1, 0, 0), gm::op_add(false, 3, 1, 1, 1, 0, 1, 0), gm::op_add(true, 1, 0, 0, 0, 1, 0, 0), gm::op_add(true, 2, 0, 1, 1, 0, 1, 0)}) {gm::apply_real(gc, P, o);}
}
static std::vector<Op> make_updates()
{
  using namespace gm;  // NOLINT
  return {
    op_rem(false, 0), op_add(false, 1, 0, 1, 1, 1, 1, 0), op_update(1, 2), op_rempart(1), op_node(ADD_NODE, 0, 3), op_assoc(AS_W, 1, 0, 0),                        // 0-5: the ones used in longer programs
    op_add(false, 0, 1, 1, 1, 0, 1, 0), op_add(true, 0, 0, 0, 0, 1, 1, 0), op_rem(true, 1), op_part(2, 2), op_update(1, 1), op_update(2, 0), op_node(REM_NODE, 0, 1),
    op_assoc(AS_R, 0, 0, 0), op_assoc(DI_R, 2, 0, 0), op_assoc(DI_W, 3, 0, 0),
    op_add(false, 1, 0, 0, 0, 1, 0, 1), op_add(true, 0, 0, 0, 0, 1, 0, 1), op_add(false, 1, 1, 0, 0, 1, 0, 2), op_add(true, 0, 1, 0, 0, 1, 0, 2), op_add(false, 1, 0, 0, 0, 1, 0, 3), op_add(true, 0, 0, 0, 0, 1, 0, 3),
    op_rem(false, 3, 1), op_rem(true, 1, 1), op_part(1, 2), op_update(0, 2),
    // from 26 on: unusual ones
    op_rem(false, 4), op_rem(true, 4), op_rem(false, 5, 1), op_rem(true, 5, 1), op_add(false, 4, 0, 0, 0, 0, 0, 0), op_add(true, 4, 0, 0, 0, 1, 0, 0), op_add(true, 5, 0, 0, 0, 1, 0, 2), op_rempart(2),
    op_add(false, 0, 0, 0, 0, 1, 0, 0), op_add(true, 1, 0, 0, 0, 1, 0, 0), op_assoc(DI_W, 1, 0, 0), op_assoc(DI_R, 1, 0, 0)};
}
static const std::vector<Op> g_updates = make_updates();
static const std::vector<Op> & updates() {return g_updates;}
constexpr int NU = 25;   // the last one (a message naming the local participant) only where no local call depends on its nodes
enum Q {Q_WCOUNT, Q_RCOUNT, Q_NT, Q_WNODE, Q_RNODE, Q_WINFO, Q_RINFO, Q_NODES, Q_NODES_E, Q_NUM, Q_PRINT, Q_WNODE_L, Q_WNODE_F, Q_RNODE_R, Q_WINFO_O, Q_RINFO_O, NQ,
  // failing ones
  X_WCOUNT = NQ, X_RCOUNT, X_NT_USED, X_W_USED, X_R_USED, X_NODES_USED, X_NT_AL, X_W_AL, X_R_AL, X_NODES_AL, X_NT_MEM, X_W_MEM, X_R_MEM, X_NODES_MEM, X_WINFO_MEM, X_RINFO_MEM, X_NT_THROW, X_W_THROW, X_R_THROW,
  X_WINFO_THROW, X_RINFO_THROW, NQX};
static const char * QN[] = {"get_writer_count", "get_reader_count", "get_names_and_types", "get_writer_names_and_types_by_node", "get_reader_names_and_types_by_node", "get_writers_info_by_topic",
  "get_readers_info_by_topic", "get_node_names", "get_node_names(enclaves)", "get_number_of_nodes", "print", "get_writer_names_and_types_by_node(talker)", "get_writer_names_and_types_by_node(fresh)", "get_reader_names_and_types_by_node(remote)",
  "get_writers_info_by_topic(other)", "get_readers_info_by_topic(other)",
  "get_writer_count(null)", "get_reader_count(null)", "get_names_and_types(used output)", "get_writer_names_and_types_by_node(used output)", "get_reader_names_and_types_by_node(used output)", "get_node_names(used output)",
  "get_names_and_types(invalid allocator)", "get_writer_names_and_types_by_node(invalid allocator)", "get_reader_names_and_types_by_node(invalid allocator)", "get_node_names(invalid allocator)",
  "get_names_and_types(failing allocation)", "get_writer_names_and_types_by_node(failing allocation)", "get_reader_names_and_types_by_node(failing allocation)", "get_node_names(failing allocation)",
  "get_writers_info_by_topic(failing allocation)", "get_readers_info_by_topic(failing allocation)", "get_names_and_types(throwing demangler)", "get_writer_names_and_types_by_node(throwing demangler)",
  "get_reader_names_and_types_by_node(throwing demangler)", "get_writers_info_by_topic(throwing demangler)", "get_readers_info_by_topic(throwing demangler)"};
// an allocator whose third allocation fails
struct Few {int left = 2;};
static void * few_al(size_t n, void * s) {auto * f = static_cast<Few *>(s); return f->left-- > 0 ? malloc(n) : nullptr;}
static void * few_za(size_t k, size_t n, void * s) {auto * f = static_cast<Few *>(s); return f->left-- > 0 ? calloc(k, n) : nullptr;}
static void * few_re(void * p, size_t n, void * s) {auto * f = static_cast<Few *>(s); return f->left-- > 0 ? realloc(p, n) : nullptr;}
static void few_de(void * p, void *) {free(p);}
struct Thrown {};
static std::string throwing(const std::string &) {throw Thrown();}
static const std::string topic = "rt/chat", node = "remote", ns = "/ns", tnode = "talker", tns = "/", fnode = "fresh", otopic = "rt/other";
static const gm::Dem id = gm::identity_dem;
static std::string failing_query(GraphCache & gc, int q)
{
  Few few; rcutils_allocator_t al = rcutils_get_default_allocator(), ok = al; rmw_ret_t r = -1; size_t n = 777;
  if (q >= X_NT_MEM && q <= X_RINFO_MEM) {al.allocate = few_al; al.zero_allocate = few_za; al.reallocate = few_re; al.deallocate = few_de; al.state = &few;}
  if (q >= X_NT_AL && q <= X_NODES_AL) {al.allocate = nullptr;}
  bool used = q >= X_NT_USED && q <= X_NODES_USED; gm::Dem d = q >= X_NT_THROW ? gm::Dem(throwing) : id;
  auto nt = rmw_get_zero_initialized_names_and_types(); auto ei = rmw_get_zero_initialized_topic_endpoint_info_array(); auto a = rcutils_get_zero_initialized_string_array(), b = a, c = a;
  if (used) {(void)!rmw_names_and_types_init(&nt, 1, &ok); (void)!rcutils_string_array_init(&b, 1, &ok);}
  bool thrown = false;
  try {
    Track t;
    switch (q) {
      case X_WCOUNT: r = gc.get_writer_count(topic, nullptr); break;
      case X_RCOUNT: r = gc.get_reader_count(topic, nullptr); break;
      case X_NT_USED: case X_NT_AL: case X_NT_MEM: case X_NT_THROW: r = gc.get_names_and_types(d, d, &al, &nt); break;
      case X_W_USED: case X_W_AL: case X_W_MEM: case X_W_THROW: r = gc.get_writer_names_and_types_by_node(node, ns, d, d, &al, &nt); break;
      case X_R_USED: case X_R_AL: case X_R_MEM: case X_R_THROW: r = gc.get_reader_names_and_types_by_node(node, ns, d, d, &al, &nt); break;
      case X_WINFO_MEM: case X_WINFO_THROW: r = gc.get_writers_info_by_topic(topic, d, &al, &ei); break;
      case X_RINFO_MEM: case X_RINFO_THROW: r = gc.get_readers_info_by_topic(topic, d, &al, &ei); break;
      default: r = gc.get_node_names(&a, &b, &c, &al); break;
    }
  } catch (const Thrown &) {thrown = true;}
  (void)n; rmw_reset_error(); rcutils_reset_error();
  if (r == RMW_RET_OK || used) {
    (void)!rmw_names_and_types_fini(&nt); (void)!rmw_topic_endpoint_info_array_fini(&ei, &al); (void)!rcutils_string_array_fini(&a); (void)!rcutils_string_array_fini(&b); (void)!rcutils_string_array_fini(&c);
  }
  return thrown ? "thrown" : fmt("ret %d", r);
}
static std::string query(GraphCache & gc, int q)
{
  if (q >= NQ) {return failing_query(gc, q);}
  rcutils_allocator_t al = rcutils_get_default_allocator(); rmw_ret_t r; std::string s;
  auto z = [](const char * c) {return std::string(c ? c : "(null)");};
  switch (q) {
    case Q_WCOUNT: case Q_RCOUNT: {size_t n = 777; {Track t; r = q == Q_WCOUNT ? gc.get_writer_count(topic, &n) : gc.get_reader_count(topic, &n);} return fmt("%d:%zu", r, n);}
    case Q_NT: case Q_WNODE: case Q_RNODE: case Q_WNODE_L: case Q_WNODE_F: case Q_RNODE_R: {
        auto n = rmw_get_zero_initialized_names_and_types();
        {
          Track t;
          r = q == Q_NT ? gc.get_names_and_types(id, id, &al, &n) : q == Q_WNODE ? gc.get_writer_names_and_types_by_node(node, ns, id, id, &al, &n) :
            q == Q_WNODE_L ? gc.get_writer_names_and_types_by_node(tnode, tns, id, id, &al, &n) : q == Q_WNODE_F ? gc.get_writer_names_and_types_by_node(fnode, tns, id, id, &al, &n) :
            q == Q_RNODE_R ? gc.get_reader_names_and_types_by_node(node, ns, id, id, &al, &n) : gc.get_reader_names_and_types_by_node(tnode, tns, id, id, &al, &n);
        }
        s = r == RMW_RET_OK ? gm::nt_real_text(n) : fmt("ret %d", r); rmw_reset_error(); (void)!rmw_names_and_types_fini(&n); return s;
      }
    case Q_WINFO: case Q_RINFO: case Q_WINFO_O: case Q_RINFO_O: {
        auto a = rmw_get_zero_initialized_topic_endpoint_info_array();
        const std::string & tp = q == Q_WINFO || q == Q_RINFO ? topic : otopic;
        {Track t; r = q == Q_RINFO || q == Q_RINFO_O ? gc.get_readers_info_by_topic(tp, id, &al, &a) : gc.get_writers_info_by_topic(tp, id, &al, &a);}
        std::multiset<std::string> l;
        for (size_t i = 0; r == RMW_RET_OK && i < a.size; ++i) {
          auto & e = a.info_array[i]; Gid g; memcpy(g.data(), e.endpoint_gid, 16);
          l.insert(gm::gs(g) + " " + z(e.node_namespace) + "|" + z(e.node_name) + "|" + z(e.topic_type) + "|" + gm::hash_str(e.topic_type_hash) + gm::qos_str(e.qos_profile));
        }
        s = fmt("%d:%zu:", r, a.size); for (auto & x : l) {s += x + ";";}
        rmw_reset_error(); (void)!rmw_topic_endpoint_info_array_fini(&a, &al); return s;
      }
    case Q_NODES: case Q_NODES_E: {
        auto a = rcutils_get_zero_initialized_string_array(), b = a, c = a;
        {Track t; r = gc.get_node_names(&a, &b, q == Q_NODES_E ? &c : nullptr, &al);}
        std::multiset<std::string> l; s = fmt("%d:%zu,%zu,%zu:", r, a.size, b.size, c.size);
        for (size_t i = 0; r == RMW_RET_OK && i < a.size && i < b.size; ++i) {l.insert(z(b.data[i]) + "|" + z(a.data[i]) + (q == Q_NODES_E && i < c.size ? "|" + z(c.data[i]) : ""));}
        for (auto & x : l) {s += x + ";";}
        (void)!rcutils_string_array_fini(&a); (void)!rcutils_string_array_fini(&b); if (q == Q_NODES_E) {(void)!rcutils_string_array_fini(&c);}
        rmw_reset_error(); return s;
      }
    case Q_NUM: {size_t n; {Track t; n = gc.get_number_of_nodes();} return fmt("%zu", n);}
    default: {
        std::ostringstream o; {Track t; o << gc;}
        std::istringstream in(o.str()); std::multiset<std::string> l; std::string x; while (std::getline(in, x)) {l.insert(x);}
        for (auto & k : l) {s += k + "\n";} return s;
      }
  }
}
static std::string update(GraphCache & gc, int u)
{
  gm::RealRet r; {Track t; r = gm::apply_real(gc, pools(), updates()[static_cast<size_t>(u)]);}
  return r.has_ret ? fmt("%d", r.ret) : r.has_msg ? gm::msg_text(r.msg) : "done";
}
static int g_cb_count;   // invocations of any registered callback
static std::string graph_op(GraphCache & gc, int code)
{
  if (code == 110) {Track t; gc.clear_on_change_callback(); return "done";}
  if (code >= 100) {
    std::string payload(40, static_cast<char>('a' + code - 100));   // captured by value: heap memory owned by the callback
    auto f = [payload]() {if (payload[7] != payload[39]) {g_cb_count += 1000000;} NoTrack n; g_cb_count++;};
    Track t; gc.set_on_change_callback(f); return "done";
  }
  return code < 50 ? update(gc, code)  : query(gc, code - 50);
}
static std::string graph_name(int code) {return code == 110 ? "clear_callback" : code >= 100 ? "set_callback" : code < 50 ? gm::op_str(updates()[static_cast<size_t>(code)]) : QN[code - 50];}
static std::string final_state(GraphCache & gc)
{
  std::string s; for (int q : {Q_PRINT, Q_NT, Q_WINFO, Q_RINFO, Q_NODES_E}) {s += query(gc, q) + "\n";}
  return s;
}
static bool is_rem_node(int code) {return code < 50 && updates()[static_cast<size_t>(code)].k == gm::REM_NODE;}

// ---------------------------------------------------------------- what the objects have been through before the program starts
// mode = 1000 * age + base mode; age 0: nothing, otherwise kind * 16 + index of the number of calls
enum {AGE_ENDPOINT, AGE_MESSAGE, AGE_QUERY, AGE_CALLBACK, AGE_CONTEXT, AGE_FAILED, AGE_LARGE, AGE_ASSOC, NAGE};
static const int AGES[] = {127, 128, 255, 256, 65534, 65535, 65536}, SIZES[] = {17, 40, 70, 130, 260};
static int age_of(int kind, int i) {return 1 + kind * 16 + i;}
static int age_count(int age) {return (age - 1) / 16 == AGE_LARGE ? SIZES[(age - 1) % 16] : AGES[(age - 1) % 16];}
static std::string age_text(int mode)
{
  static const char * T[] = {"endpoint changes", "announcements", "queries", "callback changes", "context operations", "failed context operations", "more nodes, participants and endpoints", "associations"};
  int a = mode / 1000; return a ? fmt("after %d ", age_count(a)) + T[(a - 1) / 16] + ": " : "";
}
static void make_old(GraphCache & gc, int age)
{
  if (!age) {return;}
  int n = age_count(age), kind = (age - 1) / 16; auto & P = pools();
  auto al = rcutils_get_default_allocator(); rmw_gid_t w = gm::to_rmw(gm::mkgid(0x77, 0x77)), part = gm::to_rmw(P.part[1]), loc = gm::to_rmw(P.part[0]); auto q = P.qos[0]; auto th = rosidl_get_zero_initialized_type_hash();
  Msg gone; {rmw_gid_t g = gm::to_rmw(gm::mkgid(0x78, 1)); rmw_dds_common::convert_gid_to_msg(&g, &gone.gid);}
  for (int i = 0; i < n; ++i) {
    switch (kind) {
      case AGE_ENDPOINT: if (i % 2) {(void)gc.remove_writer(w);} else {(void)gc.add_writer(w, "rt/other", "pkg::Str", th, part, q);} break;
      case AGE_MESSAGE: gc.update_participant_entities(gone); break;
      case AGE_QUERY: {
          size_t c; auto nt = rmw_get_zero_initialized_names_and_types(); auto ei = rmw_get_zero_initialized_topic_endpoint_info_array(); auto a = rcutils_get_zero_initialized_string_array(), b = a; std::ostringstream os;
          (void)gc.get_writer_count(topic, &c); (void)gc.get_number_of_nodes(); if (n > 1000) {break;}
          (void)gc.get_reader_count(topic, &c); (void)gc.get_names_and_types(id, id, &al, &nt); (void)gc.get_readers_info_by_topic(topic, id, &al, &ei); (void)gc.get_node_names(&a, &b, nullptr, &al); os << gc;
          (void)!rmw_names_and_types_fini(&nt); (void)!rmw_topic_endpoint_info_array_fini(&ei, &al); (void)!rcutils_string_array_fini(&a); (void)!rcutils_string_array_fini(&b);
          nt = rmw_get_zero_initialized_names_and_types(); (void)gc.get_reader_names_and_types_by_node(node, ns, id, id, &al, &nt); (void)!rmw_names_and_types_fini(&nt);
          break;
        }
      case AGE_CALLBACK: if (i % 2) {gc.clear_on_change_callback();} else {gc.set_on_change_callback([]() {});} break;
      case AGE_ASSOC: if (i % 2) {(void)gc.dissociate_reader(w, loc, "talker", "/");} else {(void)gc.associate_reader(w, loc, "talker", "/");} break;
      case AGE_LARGE: {
          rmw_gid_t e = gm::to_rmw(gm::mkgid(static_cast<uint8_t>(0x60 + i / 200), static_cast<uint8_t>(i % 200))), pp = gm::to_rmw(gm::mkgid(static_cast<uint8_t>(0x70 + i / 200), static_cast<uint8_t>(i % 200)));
          (void)gc.add_writer(e, otopic, fmt("pkg::T%d", i), th, part, q); (void)gc.add_reader(e, otopic, "pkg::M", th, i % 2 ? pp : loc, q); if (i % 4 == 0) {(void)gc.add_reader(pp, fmt("rt/t%d", i), "pkg::Str", th, pp, q);}
          (void)gc.add_node(loc, fmt("many_%d", i), "/"); if (i % 2) {gc.add_participant(pp, fmt("/e%d", i)); (void)gc.add_node(pp, fmt("far_%d", i), "/far");}
          (void)gc.associate_reader(e, loc, "talker", "/"); (void)gc.associate_writer(e, loc, "listener", "/");
          break;
        }
      default: break;
    }
  }
  gc.clear_on_change_callback();
}

// ================================================================ C10
struct Order {std::vector<std::pair<int, int>> seq;};
struct Spec {int age = 0; std::vector<int> key; std::map<std::string, std::vector<Order>> outcomes;};
static Spec g_spec;
static void sequential(const Prog & p, std::vector<std::pair<int, int>> & seq, std::vector<size_t> & pos)
{
  bool any = false;
  for (size_t t = 0; t < p.size(); ++t) {
    if (pos[t] < p[t].size()) {
      any = true; seq.push_back({static_cast<int>(t), static_cast<int>(pos[t])}); pos[t]++;
      sequential(p, seq, pos); pos[t]--; seq.pop_back();
    }
  }
  if (any) {return;}
  GraphCache gc; populate(gc); make_old(gc, g_spec.age); g_cb_count = 0;
  std::vector<std::vector<std::string>> res(p.size()); for (size_t t = 0; t < p.size(); ++t) {res[t].resize(p[t].size());}
  for (auto & o : seq) {res[static_cast<size_t>(o.first)][static_cast<size_t>(o.second)] = graph_op(gc, p[static_cast<size_t>(o.first)][static_cast<size_t>(o.second)]);}
  std::string k; for (auto & t : res) {for (auto & s : t) {k += s + "\x01";}}
  k += final_state(gc); g_spec.outcomes[k].push_back(Order{seq});
}
static void exec10(Ctx & x, const Case & c)
{
  std::vector<int> s; Prog p = decode(c.v, s);
  std::vector<int> key(c.v.begin(), c.v.end() - static_cast<long>(s.size()));
  sched::begin(s.data(), static_cast<int>(s.size()), g_bound, true);
  if (g_spec.key != key || g_spec.age != c.mode / 1000) {
    g_spec.key = key; g_spec.age = c.mode / 1000; g_spec.outcomes.clear();
    std::vector<std::pair<int, int>> seq; std::vector<size_t> pos(p.size(), 0); sequential(p, seq, pos);
    sched::begin(s.data(), static_cast<int>(s.size()), g_bound, true);
  }
  g_clock = 0;
  auto gc = std::make_unique<GraphCache>(); populate(*gc); make_old(*gc, c.mode / 1000); g_cb_count = 0;
  std::vector<std::vector<Rec>> rec(p.size()); std::vector<Thread> ts(p.size());
  for (size_t t = 0; t < p.size(); ++t) {
    rec[t].resize(p[t].size());
    ts[t].body = [&, t]() {for (size_t i = 0; i < p[t].size(); ++i) {std::string r; {Timed tm(rec[t][i]); r = graph_op(*gc, p[t][i]);} rec[t][i].res = r;}};
  }
  if (!execute(x, ts)) {(void)gc.release(); return;}
  if (sched::race()) {x.fail(sched::race()); (void)gc.release(); return;}
  std::string k; for (auto & t : rec) {for (auto & r : t) {k += r.res + "\x01";}}
  k += final_state(*gc);
  if (g_cb_count >= 1000000) {x.fail("a callback ran with destroyed state");}
  auto it = g_spec.outcomes.find(k); bool ok = false;
  if (it != g_spec.outcomes.end()) {
    for (auto & o : it->second) {
      bool good = true; int latest = 0;   // latest invocation so far must not be after a response that comes later in the order
      for (auto & q : o.seq) {
        Rec & r = rec[static_cast<size_t>(q.first)][static_cast<size_t>(q.second)];
        if (r.resp < latest) {good = false; break;}
        if (r.inv > latest) {latest = r.inv;}
      }
      if (good) {ok = true; break;}
    }
  }
  if (!ok) {
    std::string d; for (size_t t = 0; t < rec.size(); ++t) {for (size_t i = 0; i < rec[t].size(); ++i) {d += fmt(" thread %zu: %s -> ", t, graph_name(p[t][i]).c_str()) + rec[t][i].res + ";";}}
    x.fail((it == g_spec.outcomes.end() ? "results of no sequential order:" : "results contradict the order of the calls:") + d);
  }
  x.outcome(hx::hash_str(k));
  gc.reset(); sched::finish();
}
static void enum10(Ctx & x)
{
  std::vector<int> all; for (int i = 0; i < NU; ++i) {all.push_back(i);} for (int q = 0; q < NQ; ++q) {all.push_back(50 + q);}
  all.push_back(100); all.push_back(110);
  std::vector<int> some = {0, 1, 2, 3, 4, 5, 14, 50 + Q_WNODE, 50 + Q_WINFO, 50 + Q_NODES_E, 50 + Q_NT};
  if (x.thorough) {for (int k : {6, 7, 8, 12, 13, 50 + Q_RNODE, 50 + Q_PRINT, 50 + Q_WCOUNT}) {some.push_back(k);}}
  int age = 0;
  auto go = [&](const Prog & p) {
      int rn = 0; for (auto & t : p) {for (int k : t) {rn += is_rem_node(k);}}
      if (rn < 2) {explore(x, 10 + 1000 * age, enc(p));}
    };
  for (size_t i = 0; i < all.size(); ++i) {for (size_t j = i; j < all.size(); ++j) {go({{all[i]}, {all[j]}});}}
  for (int a : all) {for (int b : all) {for (int c : all) {go({{a}, {b, c}});}}}
  // unusual and failing calls
  {
    std::vector<int> odd, up6 = {0, 1, 2, 3, 4, 5, 8, 9}; for (int i = 26; i < static_cast<int>(updates().size()); ++i) {odd.push_back(i);} for (int q = NQ; q < NQX; ++q) {odd.push_back(50 + q);}
    for (int o : odd) {
      for (int a : all) {go({{o}, {a}}); for (int b : up6) {go({{o}, {a, b}}); go({{o}, {b, a}}); go({{a}, {o, b}}); go({{a}, {b, o}});}}
      for (int a : odd) {go({{o}, {a}}); for (int b : up6) {go({{o}, {a}, {b}});}}
    }
  }
  for (size_t i = 0; i < all.size(); ++i) {for (size_t j = i; j < all.size(); ++j) {for (size_t k = j; k < all.size(); ++k) {go({{all[i]}, {all[j]}, {all[k]}});}}}
  size_t n = some.size();
  for (size_t i = 0; i < n * n; ++i) {for (size_t j = i; j < n * n; ++j) {go({{some[i / n], some[i % n]}, {some[j / n], some[j % n]}});}}
  // four threads
  auto four = [&](const std::vector<int> & o) {
      for (size_t i = 0; i < o.size(); ++i) {for (size_t j = i; j < o.size(); ++j) {for (size_t k = j; k < o.size(); ++k) {for (size_t l = k; l < o.size(); ++l) {go({{o[i]}, {o[j]}, {o[k]}, {o[l]}});}}}}
    };
  if (x.thorough) {four(all);} else {four(some);}
  // three calls against three calls
  {
    std::vector<int> o = {0, 1, 2, 50 + Q_WINFO, 50 + Q_WNODE}; if (x.thorough) {for (int k : {3, 4, 50 + Q_NT}) {o.push_back(k);}}
    size_t m = o.size(), c = m * m * m;
    auto three = [&](size_t i) {return std::vector<int>{o[i / m / m], o[i / m % m], o[i % m]};};
    for (size_t i = 0; i < c; ++i) {for (size_t j = i; j < c; ++j) {go({three(i), three(j)});}}
  }
  // three threads: a query against two updating threads
  std::vector<int> up = {0, 1, 2, 3, 4, 5}, qs = {50 + Q_WNODE, 50 + Q_WINFO, 50 + Q_NT, 50 + Q_NODES_E};
  for (int q : qs) {for (int a : up) {for (int b : up) {for (int c : up) {
          go({{q}, {a, b}, {c}});
          if (x.thorough) {for (int d : up) {go({{q}, {a, b}, {c, d}}); go({{q, q}, {a, b}, {c, d}});}}
        }}}}
  // after many calls, and with much in the graph
  for (int k : {AGE_ENDPOINT, AGE_MESSAGE, AGE_QUERY, AGE_CALLBACK, AGE_ASSOC, AGE_LARGE}) {
    auto o = some; for (int e : {6, 12, 50 + Q_RCOUNT, 50 + Q_RINFO, 50 + Q_NUM, 50 + Q_PRINT, 50 + Q_RNODE_R, 50 + Q_WINFO_O, 50 + Q_RINFO_O, 100, 110}) {o.push_back(e);}
    for (int i = 0; i < (k == AGE_LARGE ? (x.thorough ? 5 : 3) : x.thorough ? 7 : 4); ++i) {
      age = age_of(k, i); bool big = age_count(age) > 1000; if (big) {o = {0, 2, 4, 50 + Q_NODES_E, 50 + Q_WINFO};}
      for (int a : o) {for (int b : o) {if (a <= b) {go({{a}, {b}});} if (k == AGE_LARGE && x.thorough && i < 3) {for (int c : some) {go({{a}, {b, c}});}}}}
      if (k == AGE_LARGE && (i == 1 || (x.thorough && i < 4))) {   // a query against two updates
        const std::vector<int> ups = {0, 1, 2, 3, 4, 5, 8, 9, 12, 14, 15, 18, 19, 22, 23};
        for (int q = 0; q < NQ; ++q) {for (int b : ups) {for (int c : ups) {go({{50 + q}, {b, c}});}}}
      }
    }
    age = 0;
  }
  // long runs of one thread against a single call
  for (int q : all) {for (int a : up) {for (int b : up) {for (int c : up) {go({{q}, {a, b, c}}); if (x.thorough) {for (int d : up) {go({{q}, {a, b, c, d}});}}}}}}
  x.count("max_schedules_of_a_program", g_cap);
}
static std::string desc_graph(const Case & c)
{
  std::vector<int> s; Prog p = decode(c.v, s); std::string d;
  for (auto & t : p) {d += "{"; for (int k : t) {d += graph_name(k) + "; ";} d += "} ";}
  return age_text(c.mode) + d + sched_text(s);
}

// ================================================================ C11
// codes: < 100 graph operations, 100+k set callback (a new one each time), 110 clear
struct Gen {int set_inv = 0, set_resp = 0, dead = 0, running = 0, calls = 0; std::vector<int> when; bool keeps = false;};
static std::string g_cb_err;
static int g_flag;
struct Cb   // the registered callable
{
  Gen * g;
  void operator()() const
  {
    NoTrack nt;
    if (g->dead && g_cb_err.empty()) {g_cb_err = "the callback was invoked after it had been cleared or replaced";}
    g->calls++; g->running++; g->when.push_back(++g_clock);
    g_flag = 1;
    sched::point();
    if (g->dead && g_cb_err.empty()) {g_cb_err = "clearing or replacing the callback returned while it was running";}
    g->running--;
  }
};
static bool always_changes(int code)
{
  if (code >= 50) {return false;}
  auto & o = updates()[static_cast<size_t>(code)];
  return o.k != gm::ADD_W && o.k != gm::ADD_R && o.k != gm::REM_W && o.k != gm::REM_R && o.k != gm::REM_PART;
}
// mode 11: lifecycle; mode 12: a woken thread observes the update: v encodes {{update}, {query}}
static void exec11(Ctx & x, const Case & c)
{
  std::vector<int> s; Prog p = decode(c.v, s);
  sched::begin(s.data(), static_cast<int>(s.size()), g_bound, false);
  g_clock = 0; g_flag = 0; g_cb_err.clear();
  auto gc = std::make_unique<GraphCache>(); populate(*gc); make_old(*gc, c.mode / 1000);
  std::vector<std::unique_ptr<Gen>> gens; std::vector<std::vector<Rec>> rec(p.size()); std::vector<Thread> ts(p.size());
  if (c.mode % 1000 == 12) {
    std::string want;
    {GraphCache g2; populate(g2); make_old(g2, c.mode / 1000); (void)graph_op(g2, p[0][0]); want = graph_op(g2, p[1][0]);}
    gens.emplace_back(new Gen); gc->set_on_change_callback(Cb{gens[0].get()});
    std::string got; Rec r0;
    ts[0].body = [&]() {(void)graph_op(*gc, p[0][0]);};
    ts[1].body = [&]() {sched::wait_for(&g_flag); got = graph_op(*gc, p[1][0]);};
    if (p.size() > 2) {ts[2].body = [&]() {(void)graph_op(*gc, p[2][0]);};}
    if (!execute(x, ts)) {(void)gc.release(); for (auto & g : gens) {(void)g.release();} return;}
    if (got != want) {x.fail("a thread woken by the callback of " + graph_name(p[0][0]) + " asked " + graph_name(p[1][0]) + " and got " + got + " instead of " + want);}
    x.outcome(hx::hash_str(got)); gc.reset(); sched::finish(); return;
  }
  struct SetOp {Rec * r; Gen * g;};
  std::vector<SetOp> cbops; std::vector<Rec *> ups;
  for (size_t t = 0; t < p.size(); ++t) {rec[t].resize(p[t].size()); for (size_t i = 0; i < p[t].size(); ++i) {rec[t][i].code = p[t][i];}}
  auto cbop = [&](Rec & r) {
      Gen * g = nullptr; if (r.code < 110) {gens.emplace_back(new Gen); g = gens.back().get();}
      {
        Timed tm(r);
        if (g) {g->set_inv = -1; Cb cb{g}; gc->set_on_change_callback(cb);} else {gc->clear_on_change_callback();}
      }
      // whatever had been registered before this call began is finished now
      for (auto & o : cbops) {
        if (o.g && o.r->resp && o.r->resp < r.inv) {
          if (o.g->running && g_cb_err.empty()) {g_cb_err = "clearing or replacing the callback returned while it was running";}
          o.g->dead = 1;
        }
      }
      cbops.push_back({&r, g});
    };
  for (size_t t = 0; t < p.size(); ++t) {
    ts[t].body = [&, t]() {
        for (auto & r : rec[t]) {
          if (&r != &rec[t][0]) {sched::point();}
          if (r.code >= 100) {cbop(r);} else {Timed tm(r); (void)graph_op(*gc, r.code);}
        }
      };
  }
  if (!execute(x, ts)) {(void)gc.release(); for (auto & g : gens) {(void)g.release();} return;}
  if (!g_cb_err.empty()) {x.fail(g_cb_err);}
  // a callback set before an update began, and not touched until it ended, was invoked for it
  for (auto & o : cbops) {
    if (!o.g || x.failed) {continue;}
    int need = 0;
    for (auto & t : rec) {for (auto & r : t) {
        if (!always_changes(r.code) || r.inv < o.r->resp) {continue;}
        bool disturbed = false;
        for (auto & q : cbops) {if (q.r != o.r && q.r->inv < r.resp && q.r->resp > o.r->inv) {disturbed = true;}}
        need += !disturbed;
      }}
    if (o.g->calls < need) {x.fail(fmt("the callback was invoked %d times for %d updates that followed its registration", o.g->calls, need));}
  }
  uint64_t h = 0; for (auto & g : gens) {h = h * 31 + static_cast<uint64_t>(g->calls) + 1;}
  x.outcome(h * 1000 + static_cast<uint64_t>(p[0][0] * 7)); gc.reset(); sched::finish();
}
static void enum11(Ctx & x)
{
  std::vector<int> us; for (int i = 0; i < NU + 1; ++i) {us.push_back(i);}
  std::vector<int> few = {0, 4, 2}, cb = {100, 110};
  if (x.thorough) {few = {0, 4, 2, 3, 5};}
  auto seqs = [](const std::vector<int> & a, int n) {
      std::vector<std::vector<int>> r = {{}};
      for (int i = 0; i < n; ++i) {std::vector<std::vector<int>> q; for (auto & s : r) {for (int k : a) {auto t = s; t.push_back(k); q.push_back(t);}} r = q;}
      return r;
    };
  // every update against every sequence of callback operations
  for (int u : us) {
    for (int n = 1; n <= 4; ++n) {for (auto & s : seqs(cb, n)) {explore(x, 11, enc({s, {u}})); if (!is_rem_node(u)) {explore(x, 11, enc({s, {u, u}}));}}}
    for (auto & s : seqs(cb, 2)) {for (auto & t : seqs(cb, 1)) {explore(x, 11, enc({s, t, {u}}));}}
  }
  // callback operations, two updating threads
  for (int n = 1; n <= 3; ++n) {for (auto & s : seqs(cb, n)) {
      for (int a : us) {for (int b : us) {if (a <= b && !(is_rem_node(a) && is_rem_node(b)) && (a != 25) && (b != 25)) {explore(x, 11, enc({s, {a}, {b}}));}}}
      for (auto & t : seqs(few, 2)) {for (int b : few) {explore(x, 11, enc({s, t, {b}}));}}
    }}
  // callback operations from two threads, longer updaters
  for (auto & s : seqs(cb, 2)) {for (auto & t : seqs(cb, 2)) {for (auto & u : seqs(few, 2)) {explore(x, 11, enc({s, t, u}));}}}
  for (auto & s : seqs({100, 110, 0, 4}, 3)) {for (auto & t : seqs({100, 110, 2, 3}, 3)) {explore(x, 11, enc({s, t}));}}
  for (int n = 1; n <= (x.thorough ? 3 : 2); ++n) {
    for (auto & s : seqs(cb, n)) {for (auto & t : seqs(cb, 1)) {for (int a : few) {for (int b : us) {if (b != 25 && !(is_rem_node(a) && is_rem_node(b))) {explore(x, 11, enc({s, t, {a}, {b}}));}}}}}
  }
  if (x.thorough) {
    for (int u : us) {for (auto & s : seqs(cb, 6)) {explore(x, 11, enc({s, {u}})); if (!is_rem_node(u)) {explore(x, 11, enc({s, {u, u}}));}}}
    for (auto & s : seqs(cb, 3)) {for (auto & t : seqs(cb, 2)) {for (int u : us) {explore(x, 11, enc({s, t, {u}}));}}}
    for (auto & s : seqs({100, 110, 0, 4}, 4)) {for (auto & t : seqs({100, 110, 2, 3}, 3)) {explore(x, 11, enc({s, t}));}}
  }
  // after many calls
  for (int k : {AGE_ENDPOINT, AGE_MESSAGE, AGE_CALLBACK, AGE_LARGE}) {
    for (int i = 0; i < (k == AGE_LARGE ? 3 : x.thorough ? 7 : 4); ++i) {
      int m = 1000 * age_of(k, i);
      for (int u : few) {
        for (int n = 1; n <= 3; ++n) {for (auto & s : seqs(cb, n)) {explore(x, m + 11, enc({s, {u}})); if (i < 4) {explore(x, m + 11, enc({s, {u, u}}));}}}
        for (int q : {Q_WINFO, Q_NODES_E, Q_WNODE}) {explore(x, m + 12, enc({{u}, {50 + q}}));}
      }
    }
  }
  // woken threads
  for (int u : us) {
    GraphCache g; populate(g); Gen ge; g.set_on_change_callback([&ge]() {ge.calls++;}); (void)graph_op(g, u);
    if (!ge.calls) {continue;}
    for (int q = 0; q < NQ; ++q) {explore(x, 12, enc({{u}, {50 + q}})); for (int r : {50 + Q_NUM, 50 + Q_WCOUNT}) {explore(x, 12, enc({{u}, {50 + q}, {r}}));}}
  }
  x.count("max_schedules_of_a_program", g_cap);
}
static std::string desc11(const Case & c)
{
  std::vector<int> s; Prog p = decode(c.v, s); std::string d = age_text(c.mode) + (c.mode % 1000 == 12 ? "second thread woken by the callback of the first: " : "");
  for (auto & t : p) {d += "{"; for (int k : t) {d += (k == 110 ? "clear_callback" : k >= 100 ? "set_callback" : graph_name(k)) + "; ";} d += "} ";}
  return d + sched_text(s);
}

// ================================================================ C12, C13: context operations
// code: 200 + kind * 2 + fails; endpoints and nodes are private to (thread, position) so that every order is legal
static const char * CK[] = {"add_node", "remove_node", "add_publisher", "remove_publisher", "add_subscriber", "remove_subscriber", "add_client", "remove_client", "add_service", "remove_service",
  "add_publisher(own node)", "add_client(own node)", "remove_node(own node)"};
constexpr int NK = 10;   // the last three need the node of the operation before in the same thread
struct World
{
  Context cx; rmw_publisher_t pub; Gid part = gm::mkgid(0x10, 1);
  std::vector<MNode> nodes; std::vector<std::pair<int, std::string>> seen;   // announcements: who, text
  int publishing = 0; std::string err; std::vector<int> cur;                 // current operation of each thread
  static std::string own(int id) {return fmt("own_%d", id);}
  static std::string old(int id) {return fmt("old_%d", id);}
  static Gid w(int id, int k) {return gm::mkgid(static_cast<uint8_t>(0x50 + k), static_cast<uint8_t>(id));}
  static Gid r(int id, int k) {return gm::mkgid(static_cast<uint8_t>(0x90 + k), static_cast<uint8_t>(id));}
  bool young = true; std::function<void(int)> in_publish; int forced = -2;   // the operation under way, when only one thread uses this world
  MNode * find(const std::string & n) {for (auto & x : nodes) {if (x.name == n) {return &x;}} return nullptr;}
  void init(const Prog & p)
  {
    memset(&pub, 0, sizeof pub); cx.gid = gm::to_rmw(part); cx.pub = &pub; cx.sub = nullptr;
    cx.graph_cache.add_participant(cx.gid, "/enclave"); populate(cx.graph_cache);
    nodes = {gm::mknode("/", "base")}; std::vector<MNode> extra;
    for (size_t t = 0; t < p.size(); ++t) {
      for (size_t i = 0; i < p[t].size(); ++i) {
        if (p[t][i] < 200) {continue;}
        int id = static_cast<int>(t * 8 + i), k = (p[t][i] - 200) / 2;
        if (k == 1) {extra.push_back(gm::mknode("/", old(id), {r(id, 9)}, {w(id, 9)}));}
        if (k == 3 || k == 7 || k == 9) {nodes[0].w.push_back(w(id, k));}
        if (k == 5 || k == 7 || k == 9) {nodes[0].r.push_back(r(id, k));}
      }
    }
    nodes.insert(nodes.end(), extra.begin(), extra.end());
    cx.graph_cache.update_participant_entities(gm::make_msg(part, nodes));
    cx.publish_callback = [this](const rmw_publisher_t * q, const void * m) -> rmw_ret_t {
        if (!young) {return forced;}
        NoTrack nt; int t = sched::self();
        if (q != &pub) {err = "wrong publisher";}
        if (publishing++) {if (err.empty()) {err = "two announcements are published at the same time";}}
        std::string before = gm::msg_text(*static_cast<const Msg *>(m));
        int code = forced != -2 ? forced : t > 0 && static_cast<size_t>(t) <= cur.size() ? cur[static_cast<size_t>(t) - 1] : -1;
        seen.push_back({code, before});
        sched::point();
        if (in_publish) {in_publish(code);}
        if (gm::msg_text(*static_cast<const Msg *>(m)) != before && err.empty()) {err = "an announcement changed while it was being published";}
        publishing--;
        return code >= 0 && (code & 1) ? RMW_RET_ERROR : RMW_RET_OK;
      };
  }
  void make_old(int age)
  {
    if (!age) {return;}
    int kind = (age - 1) / 16, n = age_count(age), f = forced; rmw_gid_t g = gm::to_rmw(gm::mkgid(0x4f, 0x4f)); young = false; forced = kind == AGE_FAILED ? RMW_RET_ERROR : RMW_RET_OK;
    if (kind == AGE_CONTEXT) {for (int i = 0; i < n; ++i) {(void)((n - i) % 2 ? cx.remove_publisher_graph(g, "base", "/") : cx.add_publisher_graph(g, "base", "/"));}}   // ends without it
    if (kind == AGE_FAILED) {for (int i = 0; i < n; ++i) {(void)cx.add_subscriber_graph(g, "base", "/");}}
    forced = f; young = true;
    if (kind == AGE_LARGE) {
      for (int i = 0; i < n; ++i) {Gid e = gm::mkgid(static_cast<uint8_t>(0x30 + i / 200), static_cast<uint8_t>(i % 200)); nodes.push_back(gm::mknode("/", fmt("many_%d", i), {e}, {e})); nodes[0].r.push_back(e); nodes[0].w.push_back(e);}
      cx.graph_cache.update_participant_entities(gm::make_msg(part, nodes)); return;
    }
    if (kind != AGE_CONTEXT && kind != AGE_FAILED) {::make_old(cx.graph_cache, age);}
  }
  // code packed with id: id * 1000 + code
  rmw_ret_t apply(int id, int code)
  {
    int k = (code - 200) / 2; std::string node = k == 0 ? own(id) : k == 1 ? old(id) : k >= 10 ? own(id - 1) : "base";
    rmw_gid_t a = gm::to_rmw(w(id, k)), b = gm::to_rmw(r(id, k)); Track t;
    switch (k) {
      case 0: return cx.add_node_graph(node, "/");
      case 1: case 12: return cx.remove_node_graph(node, "/");
      case 2: case 10: return cx.add_publisher_graph(a, node, "/");
      case 3: return cx.remove_publisher_graph(a, node, "/");
      case 4: return cx.add_subscriber_graph(b, node, "/");
      case 5: return cx.remove_subscriber_graph(b, node, "/");
      case 6: case 11: return cx.add_client_graph(a, b, node, "/");
      case 7: return cx.remove_client_graph(a, b, node, "/");
      case 8: return cx.add_service_graph(b, a, node, "/");
      default: return cx.remove_service_graph(b, a, node, "/");
    }
  }
  // the model of one operation: returns the announced text; a failed addition is undone
  std::string model(int id, int code)
  {
    int k = (code - 200) / 2; std::string node = k == 0 ? own(id) : k == 1 ? old(id) : k >= 10 ? own(id - 1) : "base";
    auto keep = nodes; bool add = k == 10 || k == 11 || (k < 10 && k % 2 == 0);
    if (k == 0) {nodes.push_back(gm::mknode("/", node));} else {
      MNode * n = find(node); if (!n) {return "(no such node)";}
      auto del = [](std::vector<Gid> & v, const Gid & g) {v.erase(std::remove(v.begin(), v.end(), g), v.end());};
      if (k == 1 || k == 12) {nodes.erase(nodes.begin() + (n - nodes.data()));} else {
        bool hw = k != 4 && k != 5, hr = k != 2 && k != 3 && k != 10;
        if (hw) {if (add) {n->w.push_back(w(id, k));} else {del(n->w, w(id, k));}}
        if (hr) {if (add) {n->r.push_back(r(id, k));} else {del(n->r, r(id, k));}}
      }
    }
    std::string s = text(); if (add && (code & 1)) {nodes = keep;}
    return s;
  }
  std::string text() {return gm::gs(part) + ":" + gm::nodes_text(nodes);}
  std::string local()
  {
    Msg m = cx.graph_cache.add_node(cx.gid, "probe", "/probe");
    for (size_t i = 0; i < m.node_entities_info_seq.size(); ++i) {
      if (m.node_entities_info_seq[i].node_name == "probe") {m.node_entities_info_seq.erase(m.node_entities_info_seq.begin() + static_cast<long>(i)); break;}
    }
    return gm::msg_text(m);
  }
};
static std::string ctx_name(int k) {return k >= 200 ? std::string(CK[(k - 200) / 2]) + (k & 1 ? "[publish fails]" : "") : k == 121 ? "publish_callback = nullptr" : k == 120 ? "pub = nullptr" : k == 110 ? "clear_callback" : k == 130 ? "start anew" : k >= 100 ? "set_callback" : graph_name(k);}
static bool legal(const std::vector<int> & t)
{
  for (size_t i = 0; i < t.size(); ++i) {
    if (t[i] < 200 || (t[i] - 200) / 2 < NK) {continue;}
    if (i == 0 || t[i - 1] != 200) {return false;}   // needs a node successfully added just before
    for (size_t j = 0; j < i; ++j) {if (t[j] == 120 || t[j] == 121) {return false;}}   // (without a publisher it was not)
  }
  return true;
}
static void exec12(Ctx & x, const Case & c)
{
  std::vector<int> s; Prog p = decode(c.v, s);
  sched::begin(s.data(), static_cast<int>(s.size()), g_bound, false); g_clock = 0;
  auto W = std::make_unique<World>(); W->init(p); W->make_old(c.mode / 1000);
  std::vector<Thread> ts(p.size()); std::vector<int> pending; W->cur.assign(p.size(), -1);
  for (size_t t = 0; t < p.size(); ++t) {
    ts[t].body = [&, t]() {
        for (size_t i = 0; i < p[t].size(); ++i) {
          int id = static_cast<int>(t * 8 + i);
          if (p[t][i] < 200) {(void)graph_op(W->cx.graph_cache, p[t][i]);} else {
            W->cur[t] = id * 1000 + p[t][i]; (void)W->apply(id, p[t][i]); W->cur[t] = -1;
          }
        }
      };
  }
  if (!execute(x, ts)) {(void)W.release(); return;}
  if (!W->err.empty()) {x.fail(W->err);}
  std::string all, last = W->text();
  for (size_t i = 0; i < W->seen.size() && !x.failed; ++i) {
    int code = W->seen[i].first; if (code < 0) {x.fail("an announcement was published outside any operation"); break;}
    std::string want = W->model(code / 1000, code % 1000);
    if (W->seen[i].second != want) {
      x.fail(fmt("announcement %zu, of %s: ", i + 1, ctx_name(code % 1000).c_str()) + W->seen[i].second + " instead of " + want);
    }
    last = W->text(); all += fmt("%d,", code);
  }
  if (!x.failed) {
    std::string l = W->local();
    if (l != last) {x.fail("after all announcements the local graph is " + l + " instead of " + last);}
  }
  x.outcome(hx::hash_str(all)); W.reset(); sched::finish();
}
static void enum12(Ctx & x)
{
  auto go = [&](const Prog & p) {for (auto & t : p) {if (!legal(t)) {return;}} explore(x, 20, enc(p));};
  std::vector<int> ok, all; for (int k = 0; k < NK; ++k) {ok.push_back(200 + 2 * k); all.push_back(200 + 2 * k); all.push_back(201 + 2 * k);}
  std::vector<std::vector<int>> two;
  for (int a : all) {for (int b : all) {two.push_back({a, b});}}
  for (int b : {220, 221, 222, 223, 224, 225}) {two.push_back({200, b});}
  for (int a : all) {for (int b : all) {if (a <= b) {go({{a}, {b}});}}}
  for (auto & a : two) {for (int b : all) {go({a, {b}});}}
  for (size_t i = 0; i < two.size(); ++i) {for (size_t j = i; j < two.size(); ++j) {go({two[i], two[j]});}}
  for (int a : all) {for (int b : all) {for (int c : all) {if (a <= b && b <= c) {go({{a}, {b}, {c}});}}}}
  // after many calls
  for (int k : {AGE_CONTEXT, AGE_FAILED, AGE_MESSAGE, AGE_LARGE}) {
    for (int i = 0; i < (x.thorough ? 7 : 4); ++i) {
      int m = 1000 * age_of(k, i) + 20; if (k == AGE_LARGE && (i == 0 || i > 4 || (i > 2 && !x.thorough))) {continue;}
      if (i > 3) {for (int a : {200, 203, 206, 213}) {for (int b : {200, 207, 213}) {explore(x, m, enc({{a}, {b}}));}} continue;}
      for (int a : all) {for (int b : all) {if (a <= b) {explore(x, m, enc({{a}, {b}}));}}}
      for (int a : {200, 203, 206, 213}) {for (int b : {200, 207, 213}) {for (int d : {204, 216}) {explore(x, m, enc({{a, b}, {d}})); explore(x, m, enc({{a}, {b}, {d}}));}}}
    }
  }
  // together with graph updates from discovery and queries
  for (int a : all) {for (int b : ok) {for (int g : {0, 2, 3, 9, 50 + Q_NODES, 50 + Q_WINFO}) {go({{a}, {b}, {g}}); go({{a}, {b}, {g, g}});}}}
  if (x.thorough) {
    for (auto & a : two) {for (int b : ok) {for (int c : ok) {if (b <= c) {go({a, {b}, {c}});}}}}
    for (int a : ok) {for (int b : ok) {for (int c : ok) {for (int d : ok) {if (a <= b && b <= c && c <= d) {go({{a}, {b}, {c}, {d}});}}}}}
    for (auto & a : two) {for (auto & b : two) {go({a, {b[0], b[1], 200}});}}
    std::vector<std::vector<int>> t2; std::vector<int> f = {200, 201, 203, 205, 206, 213, 214, 216}; for (int a : f) {for (int b : f) {t2.push_back({a, b});}}
    for (size_t i = 0; i < t2.size(); ++i) {for (size_t j = i; j < t2.size(); ++j) {for (int c : f) {go({t2[i], t2[j], {c}});}}}
    for (int a : all) {for (int b : all) {for (int c : all) {for (int d : f) {if (a <= b && b <= c) {go({{a}, {b}, {c}, {d}});}}}}}
  }
  x.count("max_schedules_of_a_program", g_cap);
}
static std::string desc12(const Case & c)
{
  std::vector<int> s; Prog p = decode(c.v, s); std::string d;
  if (c.mode % 1000 == 41) {d = "the publish and on-change callbacks of the first instance wait for the second: ";}
  if (c.mode % 1000 == 42) {d = "the calls on the second instance come from inside the publish and on-change callbacks of the first: ";}
  if (c.mode % 1000 == 33) {d = "the calls of the first list, then those of the second from another thread: ";}
  if (c.mode % 1000 == 30) {d = "the publish callback of the first thread waits for the second: ";}
  if (c.mode % 1000 == 31) {d = "from inside the publish callback of the first thread, the calls of the last list: ";}
  for (auto & t : p) {d += "{"; for (int k : t) {d += ctx_name(k) + "; ";} d += "} ";}
  return age_text(c.mode) + d + sched_text(s);
}

// C13: mode 30: publish blocks until thread 2 is done; mode 31: calls from inside publish; mode 32: anything with anything;
// mode 33: a history of one thread (also unusual and failing calls), after which another thread can still do everything
static void exec13(Ctx & x, const Case & c)
{
  std::vector<int> s; Prog p = decode(c.v, s);
  sched::begin(s.data(), static_cast<int>(s.size()), g_bound, false); g_clock = 0; g_flag = 0;
  auto W = std::make_unique<World>(); W->init(p); W->make_old(c.mode / 1000); W->cur.assign(p.size(), -1); const int mode = c.mode % 1000;
  int flag = 0, hits = 0; std::vector<int> nested; Gen gen;
  size_t nt = p.size();
  if (mode == 30) {W->in_publish = [&](int code) {if (code / 1000 / 8 == 0) {sched::wait_for(&flag);}};}
  if (mode == 31) {nested = p.back(); nt--; W->in_publish = [&](int) {for (int k : nested) {(void)graph_op(W->cx.graph_cache, k); hits++;}};}
  std::vector<Thread> ts(nt);
  auto one = [&](size_t t, size_t i) {
      int k = p[t][i], id = static_cast<int>(t * 8 + i);
      if (k >= 200) {W->cur[t] = id * 1000 + k; (void)W->apply(id, k); W->cur[t] = -1;} else if (k == 110) {W->cx.graph_cache.clear_on_change_callback();} else if (k == 120) {W->cx.pub = nullptr;} else if (k == 121) {W->cx.publish_callback = nullptr;} else if (k >= 100) {
        W->cx.graph_cache.set_on_change_callback([]() {NoTrack n; sched::point();});
      } else {(void)graph_op(W->cx.graph_cache, k);}
    };
  for (size_t t = 0; t < nt; ++t) {
    ts[t].body = [&, t]() {
        if (mode == 33 && t == 1) {sched::wait_for(&flag);}
        for (size_t i = 0; i < p[t].size(); ++i) {one(t, i);}
        if ((mode == 30 && t == 1) || (mode == 33 && t == 0)) {flag = 1;}
      };
  }
  if (!execute(x, ts)) {(void)W.release(); return;}
  x.outcome(hx::hash_str(W->local()) * 31 + static_cast<uint64_t>(p[0][0])); W.reset(); sched::finish();
}
static void enum13(Ctx & x)
{
  auto go = [&](int mode, const Prog & p) {for (auto & t : p) {if (!legal(t)) {return;}} explore(x, mode, enc(p));};
  std::vector<int> cx, graph; for (int k = 0; k < NK; ++k) {cx.push_back(200 + 2 * k); cx.push_back(201 + 2 * k);}
  // graph operations that come from discovery, and all queries (no removal of the local nodes of `populate` twice)
  for (int i = 0; i < NU; ++i) {graph.push_back(i);} for (int q = 0; q < NQ; ++q) {graph.push_back(50 + q);}
  auto safe = [](int a, int b) {return !(is_rem_node(a) && is_rem_node(b));};
  for (int a : cx) {
    for (int g : graph) {
      go(30, {{a}, {g}}); go(31, {{a}, {g}});
      for (int h : graph) {if (safe(g, h)) {go(30, {{a}, {g, h}}); go(31, {{a}, {g, h}});}}
      for (int b : cx) {if (!is_rem_node(g)) {go(30, {{a}, {g}, {b}}); if (x.thorough) {go(31, {{a}, {b}, {g}});}}}
      if (g != 12) {for (int b : {200, 204, 213}) {go(31, {{a}, {b}, {g}});}}
    }
  }
  std::vector<int> any = cx; for (int g : {0, 1, 2, 3, 4, 9, 50 + Q_WCOUNT, 50 + Q_NT, 50 + Q_WNODE, 50 + Q_RINFO, 50 + Q_NODES, 50 + Q_NUM, 50 + Q_PRINT, 100, 110}) {any.push_back(g);}
  for (int a : any) {for (int b : any) {go(32, {{a}, {b}}); for (int c : any) {go(32, {{a}, {b, c}}); if (a <= b && b <= c) {go(32, {{a}, {b}, {c}});}}}}
  {
    std::vector<int> every = cx; for (int i = 0; i < static_cast<int>(updates().size()); ++i) {if (i != 25) {every.push_back(i);}}
    for (int q = 0; q < NQX; ++q) {every.push_back(50 + q);} for (int k : {100, 110, 120, 121, 220, 221, 222, 223, 224, 225}) {every.push_back(k);}
    const std::vector<int> probe = {2, 50 + Q_NODES_E, 200};
    for (int a : every) {
      go(33, {{a}, probe});
      for (int b : every) {
        if (!safe(a, b)) {continue;}
        go(33, {{a, b}, probe});
        for (int d : every) {if (safe(a, d) && safe(b, d)) {go(33, {{a, b, d}, probe});}}
      }
    }
  }
  // after many calls
  for (int k : {AGE_ENDPOINT, AGE_MESSAGE, AGE_QUERY, AGE_CALLBACK, AGE_CONTEXT, AGE_FAILED, AGE_ASSOC}) {
    for (int i = 0; i < (x.thorough ? 7 : 4); ++i) {
      int m = 1000 * age_of(k, i); std::vector<int> a2 = {200, 201, 202, 203, 206, 207, 213, 215, 216}, g2 = {0, 2, 4, 14, 50 + Q_NT, 50 + Q_NODES}; if (i > 3) {a2 = {200, 203, 213}; g2 = {0, 2, 50 + Q_NODES};}
      for (int a : a2) {for (int g : g2) {go(m + 30, {{a}, {g}}); go(m + 31, {{a}, {g}}); go(m + 32, {{a}, {g}}); if (i < 4) {go(m + 32, {{100, a}, {g, 110}});}} for (int b : {200, 205, 213}) {go(m + 32, {{a}, {b}}); if (i < 4) {go(m + 32, {{a}, {b}, {2}});}} go(m + 33, {{a}, {2, 50 + Q_NODES_E, 200}});}
    }
  }
  // with an on-change callback in place
  std::vector<int> few = {200, 203, 204, 207, 212, 213, 216, 0, 2, 4, 50 + Q_NT, 50 + Q_NODES, 100, 110};
  for (int a : few) {for (int b : few) {for (int c : few) {for (int d : few) {if (x.thorough || d == 100 || d == 110 || d == 213) {go(32, {{100, a}, {b, c}, {d}});}}}}}
  x.count("max_schedules_of_a_program", g_cap);
}

// ================================================================ C29: instances share nothing
// every thread has a context (and its graph cache) of its own, all with the same contents; codes as in C12, 130: start anew
static std::unique_ptr<World> world29(const std::vector<int> & ops) {auto W = std::make_unique<World>(); Prog p = {ops}; W->init(p); return W;}
// hook: called from inside the publish and on-change callbacks of this instance
static std::string run29(const std::vector<int> & ops, bool inter, std::vector<std::string> & out, std::unique_ptr<World> & W, const std::function<void()> & hook = nullptr)
{
  int calls = 0;
  auto hooked = [&]() {if (hook) {W->in_publish = [&](int) {hook();};}};
  auto fresh = [&]() {W.reset(); W = world29(ops); hooked();};
  hooked();
  for (size_t i = 0; i < ops.size(); ++i) {
    int k = ops[i], id = static_cast<int>(i); std::string r;
    if (inter && i) {sched::point();}
    size_t n = W->seen.size(); int c0 = calls;
    if (k == 130) {fresh(); r = "fresh"; n = 0;} else if (k == 110) {Track t; W->cx.graph_cache.clear_on_change_callback();} else if (k >= 100 && k < 110) {
      auto f = [&calls, &hook]() {NoTrack nt; calls++; if (hook) {hook();}}; Track t; W->cx.graph_cache.set_on_change_callback(f);
    } else if (k >= 200) {W->forced = id * 1000 + k; r = fmt("%d", W->apply(id, k)); W->forced = -1;} else {r = graph_op(W->cx.graph_cache, k);}
    for (; n < W->seen.size(); ++n) {r += " announced " + W->seen[n].second;}
    out.push_back(r + fmt(" [%d notifications]", calls - c0));
  }
  return W->err;
}
static std::map<std::vector<int>, std::pair<std::string, std::vector<std::string>>> g_alone;
static std::string end29(World & W) {W.cx.graph_cache.clear_on_change_callback(); return final_state(W.cx.graph_cache) + W.local();}
static void exec29(Ctx & x, const Case & c)
{
  std::vector<int> s; Prog p = decode(c.v, s);
  for (auto & t : p) {
    if (g_alone.count(t)) {continue;}
    sched::begin(nullptr, 0, -1, false); auto & e = g_alone[t]; auto W = world29(t); e.first = run29(t, false, e.second, W); e.first += end29(*W);
  }
  sched::begin(s.data(), static_cast<int>(s.size()), x.thorough ? 2 : 1, true);   // preemption bound
  std::vector<Thread> ts(p.size()); std::vector<std::vector<std::string>> res(p.size()); std::vector<std::string> fin(p.size()); std::vector<std::unique_ptr<World>> w;
  for (auto & t : p) {w.push_back(world29(t));}
  int flag = 0, inside = 0;
  if (c.mode == 42) {   // the calls on the second instance come from inside the callbacks of the first
    ts.resize(1);
    ts[0].body = [&]() {
        auto hook = [&]() {if (!inside++) {fin[1] = run29(p[1], false, res[1], w[1]);}};
        fin[0] = run29(p[0], true, res[0], w[0], hook); if (!inside) {fin[1] = run29(p[1], false, res[1], w[1]);}
      };
  } else {
    for (size_t t = 0; t < p.size(); ++t) {
      ts[t].body = [&, t]() {   // mode 41: the callbacks of the first instance wait for the calls on the second
          std::function<void()> hook; if (c.mode == 41 && t == 0) {hook = [&]() {sched::wait_for(&flag);};}
          fin[t] = run29(p[t], true, res[t], w[t], hook); if (t == 1) {flag = 1;}
        };
    }
  }
  if (!execute(x, ts)) {for (auto & k : w) {(void)k.release();} return;}
  if (sched::race()) {for (auto & k : w) {(void)k.release();} x.fail(std::string("shared between instances: ") + sched::race()); return;}
  uint64_t h = 0;
  for (size_t t = 0; t < p.size() && !x.failed; ++t) {
    fin[t] += end29(*w[t]);
    auto & e = g_alone[p[t]];
    for (size_t i = 0; i < p[t].size(); ++i) {
      if (res[t].at(i) != e.second[i]) {x.fail(fmt("instance %zu, call %zu: ", t, i + 1) + ctx_name(p[t][i]) + " gave " + res[t][i] + " but alone gives " + e.second[i]); break;}
      h = h * 31 + hx::hash_str(res[t][i]);
    }
    if (!x.failed && fin[t] != e.first) {x.fail(fmt("instance %zu ends as ", t) + fin[t] + " but alone as " + e.first);}
    h = h * 31 + hx::hash_str(fin[t]);
  }
  x.outcome(h); sched::finish();
}
static void enum29(Ctx & x)
{
  int mode = 40;
  auto go = [&](const Prog & p) {for (auto & t : p) {if (!legal(t)) {return;} int rn = 0; for (int k : t) {rn += is_rem_node(k);} if (rn > 1) {return;}} explore(x, mode, enc(p));};
  std::vector<int> all; for (int k = 0; k < NK; ++k) {all.push_back(200 + 2 * k); all.push_back(201 + 2 * k);}
  for (int i = 0; i < NU; ++i) {all.push_back(i);} for (int q = 0; q < NQX; ++q) {all.push_back(50 + q);} for (int k : {100, 110, 130}) {all.push_back(k);}
  std::vector<int> some = {200, 203, 204, 207, 212, 213, 218, 0, 1, 2, 3, 4, 5, 8, 9, 14, 50 + Q_NT, 50 + Q_WINFO, 50 + Q_WNODE, 50 + Q_NODES_E, 50 + Q_PRINT, 100, 110, 130};
  std::vector<int> few = {200, 204, 213, 1, 2, 3, 4, 50 + Q_WINFO, 50 + Q_NODES_E, 100, 130};
  for (int a : all) {for (int b : all) {if (a <= b) {go({{a}, {b}});}}}
  for (int a : all) {for (int b : some) {for (int c : some) {go({{a}, {b, c}});}}}
  for (int a : some) {for (int b : some) {for (int c : some) {if (a <= b && b <= c) {go({{a}, {b}, {c}});}}}}
  auto two = [&](const std::vector<int> & o) {
      size_t n = o.size(); for (size_t i = 0; i < n * n; ++i) {for (size_t j = i; j < n * n; ++j) {go({{o[i / n], o[i % n]}, {o[j / n], o[j % n]}});}}
    };
  two(few); if (x.thorough) {two(some);}
  for (int a : few) {for (int b : few) {for (int c : few) {for (int d : few) {go({{a, b, c}, {d}}); if (x.thorough) {go({{a, b, c}, {d, a}}); go({{100, a, b}, {100, c, d}}); go({{a, b}, {c}, {d}});}}}}}
  for (mode = 41; mode <= 42; ++mode) {
    for (int b : all) {
      for (int k = 0; k < NK; ++k) {for (int e : {0, 1}) {go({{200 + 2 * k + e}, {b}}); if (b < 200) {go({{200 + 2 * k + e}, {b, 204}});}}}
      for (int a = 0; a < NU; ++a) {go({{100, a}, {b}}); go({{100, a}, {100, b}});}
      if (x.thorough) {for (int a : some) {for (int d : some) {go({{100, a}, {b, d}});}}}
    }
  }
  x.count("max_schedules_of_a_program", g_cap);
}

int main(int argc, char ** argv)
{
  return hx::main_impl(argc, argv, [](Ctx & x, hx::Prop & p) {
    if (x.prop == "C10") {p.enumerate = enum10; p.exec = exec10; p.describe = desc_graph;} else if (x.prop == "C11") {
      p.enumerate = enum11; p.exec = exec11; p.describe = desc11;
    } else if (x.prop == "C12") {p.enumerate = enum12; p.exec = exec12; p.describe = desc12;} else if (x.prop == "C13") {
      p.enumerate = enum13; p.exec = exec13; p.describe = desc12;
    } else if (x.prop == "C29") {p.enumerate = enum29; p.exec = exec29; p.describe = desc12;} else {return false;}
    return true;
  });
}
