// Reference model of the graph cache (plain containers, no cleverness), operations, observers.
#pragma once
#include <array>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "common.hpp"
#include "rcutils/allocator.h"
#include "rmw/names_and_types.h"
#include "rmw/topic_endpoint_info_array.h"
#include "rmw_dds_common/graph_cache.hpp"

namespace gm
{
using rmw_dds_common::GraphCache;
using Msg = rmw_dds_common::msg::ParticipantEntitiesInfo;
using MsgNode = rmw_dds_common::msg::NodeEntitiesInfo;
using Gid = std::array<uint8_t, 16>;

inline rmw_gid_t to_rmw(const Gid & g, const char * impl = "impl")
{
  rmw_gid_t r; memset(&r, 0, sizeof r); r.implementation_identifier = impl; memcpy(r.data, g.data(), 16); return r;
}
inline rmw_dds_common::msg::Gid to_msg(const Gid & g)
{
  rmw_dds_common::msg::Gid m; for (int i = 0; i < 16; ++i) {m.data[i] = g[i];} return m;
}
inline Gid from_msg(const rmw_dds_common::msg::Gid & m)
{
  Gid g; for (int i = 0; i < 16; ++i) {g[i] = m.data[i];} return g;
}
inline std::string gs(const Gid & g)
{
  std::string s; for (auto b : g) {s += hx::fmt("%02x", b);}
  return s;
}

// ---------------------------------------------------------------- ledger allocator
template<class T> struct MallocAlloc   // keeps the ledger's own bookkeeping out of operator new
{
  using value_type = T;
  MallocAlloc() = default;
  template<class U> MallocAlloc(const MallocAlloc<U> &) {}
  T * allocate(size_t n) {return static_cast<T *>(malloc(n * sizeof(T)));}
  void deallocate(T * p, size_t) {free(p);}
  template<class U> bool operator==(const MallocAlloc<U> &) const {return true;}
  template<class U> bool operator!=(const MallocAlloc<U> &) const {return false;}
};
struct Ledger
{
  std::map<void *, size_t, std::less<void *>, MallocAlloc<std::pair<void * const, size_t>>> live;
  long count = 0, fail_at = -1;   // fail the fail_at-th allocation (0-based), once
  bool fail_from = false;         // ... or every one from it on
  bool bad_free = false;
  long failures = 0;
  bool fails() {long k = count++; bool f = fail_at >= 0 && (fail_from ? k >= fail_at : k == fail_at); if (f) {failures++;} return f;}
};
inline void * l_alloc(size_t n, void * s)
{
  auto L = static_cast<Ledger *>(s); if (L->fails()) {return nullptr;}
  void * p = malloc(n ? n : 1); memset(p, 0xA5, n); L->live[p] = n; return p;
}
inline void l_free(void * p, void * s)
{
  auto L = static_cast<Ledger *>(s); if (!p) {return;}
  if (!L->live.erase(p)) {L->bad_free = true; return;}
  free(p);
}
inline void * l_realloc(void * p, size_t n, void * s)
{
  auto L = static_cast<Ledger *>(s); if (L->fails()) {return nullptr;}
  if (p && !L->live.erase(p)) {L->bad_free = true; p = nullptr;}
  void * q = realloc(p, n ? n : 1); L->live[q] = n; return q;
}
inline void * l_calloc(size_t a, size_t b, void * s)
{
  auto L = static_cast<Ledger *>(s); if (L->fails()) {return nullptr;}
  void * p = calloc(a ? a : 1, b ? b : 1); L->live[p] = a * b; return p;
}
inline rcutils_allocator_t ledger_allocator(Ledger * L)
{
  rcutils_allocator_t a; a.allocate = l_alloc; a.deallocate = l_free; a.reallocate = l_realloc;
  a.zero_allocate = l_calloc; a.state = L; return a;
}

// ---------------------------------------------------------------- model
inline std::string qos_str(const rmw_qos_profile_t & q)
{
  return hx::fmt("h%d d%zu r%d u%d dl%llu.%llu ls%llu.%llu l%d le%llu.%llu a%d", (int)q.history, q.depth, (int)q.reliability,
    (int)q.durability, (unsigned long long)q.deadline.sec, (unsigned long long)q.deadline.nsec,
    (unsigned long long)q.lifespan.sec, (unsigned long long)q.lifespan.nsec, (int)q.liveliness,
    (unsigned long long)q.liveliness_lease_duration.sec, (unsigned long long)q.liveliness_lease_duration.nsec,
    (int)q.avoid_ros_namespace_conventions);
}
inline std::string hash_str(const rosidl_type_hash_t & h)
{
  std::string s = hx::fmt("v%u:", h.version); for (auto b : h.value) {s += hx::fmt("%02x", b);}
  return s;
}
struct MEnt {std::string topic, type; rosidl_type_hash_t hash; Gid part; rmw_qos_profile_t qos;};
struct MNode
{
  std::string name, ns; std::vector<Gid> r, w;
};
struct MPart {std::vector<MNode> nodes; std::string enclave;};
struct Model
{
  std::map<Gid, MEnt> w, r;
  std::map<Gid, MPart> p;
  // serialization used to identify states
  std::string key() const
  {
    std::string s;
    for (int k = 0; k < 2; ++k) {
      s += k ? "|R" : "|W";
      for (auto & e : (k ? r : w)) {
        s += gs(e.first) + e.second.topic + "," + e.second.type + "," + hash_str(e.second.hash) + gs(e.second.part) + qos_str(e.second.qos) + ";";
      }
    }
    for (auto & e : p) {
      s += "|P" + gs(e.first) + e.second.enclave + "{";
      for (auto & n : e.second.nodes) {
        s += n.ns + "/" + n.name + "[";
        for (auto & g : n.r) {s += gs(g) + ",";}
        s += "][";
        for (auto & g : n.w) {s += gs(g) + ",";}
        s += "]";
      }
      s += "}";
    }
    return s;
  }
};

// ---------------------------------------------------------------- value pools
struct MsgSpec {std::vector<MNode> nodes;};
struct NodeName {std::string name, ns;};
struct Pools
{
  std::vector<Gid> gid;            // endpoints
  std::vector<Gid> part;           // participants
  std::vector<std::string> topic, type, enclave;
  std::vector<NodeName> node;
  std::vector<rosidl_type_hash_t> hash;
  std::vector<rmw_qos_profile_t> qos;
  std::vector<MsgSpec> msg;
  std::vector<std::string> qtopic;  // topics to query (superset)
  std::vector<NodeName> qnode;
};

enum Kind {ADD_W, ADD_R, REM_W, REM_R, ADD_PART, REM_PART, UPDATE, ADD_NODE, REM_NODE, AS_W, DI_W, AS_R, DI_R,
  SET_CB, CLR_CB, QUERY};
struct Op
{
  Kind k; int gid = 0, part = 0, topic = 0, type = 0, hash = 0, qos = 0, ovl = 0, node = 0, msg = 0, encl = 0;
};
inline const char * kname(Kind k)
{
  static const char * n[] = {"add_writer", "add_reader", "remove_writer", "remove_reader", "add_participant", "remove_participant",
    "update_participant_entities", "add_node", "remove_node", "associate_writer", "dissociate_writer", "associate_reader",
    "dissociate_reader", "set_callback", "clear_callback", "query"};
  return n[k];
}
inline std::string op_str(const Op & o)
{
  switch (o.k) {
    case ADD_W: case ADD_R:
      return hx::fmt("%s(g%d,t%d,y%d,h%d,p%d,q%d,ovl%d)", kname(o.k), o.gid, o.topic, o.type, o.hash, o.part, o.qos, o.ovl);
    case REM_W: case REM_R: return hx::fmt("%s(g%d,ovl%d)", kname(o.k), o.gid, o.ovl);
    case ADD_PART: return hx::fmt("%s(p%d,e%d)", kname(o.k), o.part, o.encl);
    case REM_PART: return hx::fmt("%s(p%d)", kname(o.k), o.part);
    case UPDATE: return hx::fmt("%s(p%d,m%d)", kname(o.k), o.part, o.msg);
    case ADD_NODE: case REM_NODE: return hx::fmt("%s(p%d,n%d)", kname(o.k), o.part, o.node);
    case AS_W: case DI_W: case AS_R: case DI_R: return hx::fmt("%s(g%d,p%d,n%d)", kname(o.k), o.gid, o.part, o.node);
    default: return kname(o.k);
  }
}
inline Op op_add(bool reader, int gid, int topic, int type, int hash, int part, int qos, int ovl)
{
  Op o; o.k = reader ? ADD_R : ADD_W; o.gid = gid; o.topic = topic; o.type = type; o.hash = hash; o.part = part; o.qos = qos; o.ovl = ovl;
  return o;
}
inline Op op_rem(bool reader, int gid, int ovl = 0) {Op o; o.k = reader ? REM_R : REM_W; o.gid = gid; o.ovl = ovl; return o;}
inline Op op_part(int part, int encl) {Op o; o.k = ADD_PART; o.part = part; o.encl = encl; return o;}
inline Op op_rempart(int part) {Op o; o.k = REM_PART; o.part = part; return o;}
inline Op op_update(int part, int msg) {Op o; o.k = UPDATE; o.part = part; o.msg = msg; return o;}
inline Op op_node(Kind k, int part, int node) {Op o; o.k = k; o.part = part; o.node = node; return o;}
inline Op op_assoc(Kind k, int gid, int part, int node) {Op o; o.k = k; o.gid = gid; o.part = part; o.node = node; return o;}

inline MNode * find_node(Model & m, const Gid & part, const NodeName & n)
{
  auto it = m.p.find(part);
  if (it == m.p.end()) {return nullptr;}
  for (auto & x : it->second.nodes) {if (x.name == n.name && x.ns == n.ns) {return &x;}}
  return nullptr;
}
// Is the call within the documented preconditions?
inline bool enabled(Model & m, const Pools & P, const Op & o)
{
  switch (o.k) {
    case ADD_NODE: return m.p.count(P.part[o.part]) > 0;
    case REM_NODE: case AS_W: case DI_W: case AS_R: case DI_R:
      return find_node(m, P.part[o.part], P.node[o.node]) != nullptr;
    default: return true;
  }
}
struct Effect {bool changed = false; bool has_ret = false, ret = false; bool has_msg = false;};
inline Effect apply_model(Model & m, const Pools & P, const Op & o)
{
  Effect e;
  switch (o.k) {
    case ADD_W: case ADD_R: {
        auto & M = o.k == ADD_W ? m.w : m.r;
        MEnt x; x.topic = P.topic[o.topic]; x.type = P.type[o.type];
        x.hash = (o.ovl & 1) ? rosidl_get_zero_initialized_type_hash() : P.hash[o.hash];
        x.part = P.part[o.part]; x.qos = P.qos[o.qos];
        e.has_ret = true;
        if (!M.count(P.gid[o.gid])) {M[P.gid[o.gid]] = x; e.ret = e.changed = true;}
        break;
      }
    case REM_W: case REM_R:
      e.has_ret = true; e.ret = e.changed = (o.k == REM_W ? m.w : m.r).erase(P.gid[o.gid]) > 0; break;
    case ADD_PART: m.p[P.part[o.part]].enclave = P.enclave[o.encl]; e.changed = true; break;
    case REM_PART: e.has_ret = true; e.ret = e.changed = m.p.erase(P.part[o.part]) > 0; break;
    case UPDATE: m.p[P.part[o.part]].nodes = P.msg[o.msg].nodes; e.changed = true; break;
    case ADD_NODE: {
        MNode n; n.name = P.node[o.node].name; n.ns = P.node[o.node].ns;
        m.p[P.part[o.part]].nodes.push_back(n); e.changed = true; e.has_msg = true; break;
      }
    case REM_NODE: {
        auto & v = m.p[P.part[o.part]].nodes;
        for (size_t i = 0; i < v.size(); ++i) {
          if (v[i].name == P.node[o.node].name && v[i].ns == P.node[o.node].ns) {v.erase(v.begin() + i); break;}
        }
        e.changed = true; e.has_msg = true; break;
      }
    case AS_W: case AS_R: {
        MNode * n = find_node(m, P.part[o.part], P.node[o.node]);
        (o.k == AS_W ? n->w : n->r).push_back(P.gid[o.gid]); e.changed = true; e.has_msg = true; break;
      }
    case DI_W: case DI_R: {
        MNode * n = find_node(m, P.part[o.part], P.node[o.node]);
        auto & v = o.k == DI_W ? n->w : n->r;
        for (size_t i = 0; i < v.size(); ++i) {if (v[i] == P.gid[o.gid]) {v.erase(v.begin() + i); break;}}
        e.changed = true; e.has_msg = true; break;
      }
    default: break;
  }
  return e;
}

inline Msg make_msg(const Gid & part, const std::vector<MNode> & nodes)
{
  Msg m; m.gid = to_msg(part);
  for (auto & n : nodes) {
    MsgNode x; x.node_name = n.name; x.node_namespace = n.ns;
    for (auto & g : n.r) {x.reader_gid_seq.push_back(to_msg(g));}
    for (auto & g : n.w) {x.writer_gid_seq.push_back(to_msg(g));}
    m.node_entities_info_seq.push_back(x);
  }
  return m;
}
// Order-insensitive text of a node list.
inline std::string nodes_text(const std::vector<MNode> & nodes)
{
  std::multiset<std::string> s;
  for (auto & n : nodes) {
    std::multiset<std::string> r, w; for (auto & g : n.r) {r.insert(gs(g));} for (auto & g : n.w) {w.insert(gs(g));}
    std::string t = n.ns + "/" + n.name + " r["; for (auto & g : r) {t += g + ",";} t += "] w["; for (auto & g : w) {t += g + ",";} t += "]";
    s.insert(t);
  }
  std::string o; for (auto & x : s) {o += x + ";";}
  return o;
}
inline std::string msg_text(const Msg & m)
{
  std::vector<MNode> v;
  for (auto & n : m.node_entities_info_seq) {
    MNode x; x.name = n.node_name; x.ns = n.node_namespace;
    for (auto & g : n.reader_gid_seq) {x.r.push_back(from_msg(g));}
    for (auto & g : n.writer_gid_seq) {x.w.push_back(from_msg(g));}
    v.push_back(x);
  }
  return gs(from_msg(m.gid)) + ":" + nodes_text(v);
}

struct RealRet {bool has_ret = false, ret = false; bool has_msg = false; Msg msg;};
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
// an argument that is overwritten once the call is over: nothing may keep referring to it
struct Arg
{
  std::string s;
  explicit Arg(const std::string & v) : s(v) {}
  ~Arg() {for (auto & c : s) {c = '#';} asm volatile("" : : "r"(s.data()) : "memory");}
  operator const std::string &() const {return s;}
};
struct GidArg
{
  rmw_gid_t g;
  explicit GidArg(const rmw_gid_t & v) : g(v) {}
  ~GidArg() {memset(g.data, 0xdd, sizeof g.data); asm volatile("" : : "r"(&g) : "memory");}
  operator const rmw_gid_t &() const {return g;}
};
inline RealRet apply_real(GraphCache & gc, const Pools & P, const Op & o)
{
  RealRet x;
  auto G = [&](int i) {return GidArg(to_rmw(P.gid[i], i & 1 ? "impl_b" : "impl_a"));};
  auto A = [&](int i) {return GidArg(to_rmw(P.part[i], i & 1 ? nullptr : "impl_a"));};
  switch (o.k) {
    case ADD_W: case ADD_R: {
        bool rd = o.k == ADD_R; x.has_ret = true;
        const Arg t(P.topic[o.topic]), y(P.type[o.type]);
        auto h = P.hash[o.hash]; auto q = P.qos[o.qos];
        const GidArg g = G(o.gid), a = A(o.part);
        switch (o.ovl) {
          case 0: x.ret = rd ? gc.add_reader(g, t, y, h, a, q) : gc.add_writer(g, t, y, h, a, q); break;
          case 1: x.ret = rd ? gc.add_reader(g, t, y, a, q) : gc.add_writer(g, t, y, a, q); break;
          case 2: x.ret = gc.add_entity(g, t, y, h, a, q, rd); break;
          default: x.ret = gc.add_entity(g, t, y, a, q, rd); break;
        }
        memset(&h, 0xdd, sizeof h); memset(&q, 0xdd, sizeof q); asm volatile("" : : "r"(&h), "r"(&q) : "memory");
        break;
      }
    case REM_W: case REM_R: {
        bool rd = o.k == REM_R; x.has_ret = true; const GidArg g = G(o.gid);
        x.ret = o.ovl ? gc.remove_entity(g, rd) : (rd ? gc.remove_reader(g) : gc.remove_writer(g)); break;
      }
    case ADD_PART: gc.add_participant(A(o.part), Arg(P.enclave[o.encl])); break;
    case REM_PART: x.has_ret = true; x.ret = gc.remove_participant(A(o.part)); break;
    case UPDATE: {
        auto m = make_msg(P.part[o.part], P.msg[o.msg].nodes); gc.update_participant_entities(m);
        m.gid.data.fill(0xdd); for (auto & n : m.node_entities_info_seq) {n.node_name.assign(n.node_name.size(), '#'); n.node_namespace.assign(n.node_namespace.size(), '#'); n.reader_gid_seq.clear(); n.writer_gid_seq.clear();}
        break;
      }
    case ADD_NODE: x.has_msg = true; x.msg = gc.add_node(A(o.part), Arg(P.node[o.node].name), Arg(P.node[o.node].ns)); break;
    case REM_NODE: x.has_msg = true; x.msg = gc.remove_node(A(o.part), Arg(P.node[o.node].name), Arg(P.node[o.node].ns)); break;
    case AS_W: x.has_msg = true; x.msg = gc.associate_writer(G(o.gid), A(o.part), Arg(P.node[o.node].name), Arg(P.node[o.node].ns)); break;
    case DI_W: x.has_msg = true; x.msg = gc.dissociate_writer(G(o.gid), A(o.part), Arg(P.node[o.node].name), Arg(P.node[o.node].ns)); break;
    case AS_R: x.has_msg = true; x.msg = gc.associate_reader(G(o.gid), A(o.part), Arg(P.node[o.node].name), Arg(P.node[o.node].ns)); break;
    case DI_R: x.has_msg = true; x.msg = gc.dissociate_reader(G(o.gid), A(o.part), Arg(P.node[o.node].name), Arg(P.node[o.node].ns)); break;
    default: break;
  }
  return x;
}
#pragma GCC diagnostic pop

// ---------------------------------------------------------------- observations
enum Obs {O_COUNT = 1, O_INFO = 2, O_NODEATTR = 4, O_NT = 8, O_NTNODE = 16, O_NODES = 32, O_NUM = 64, O_PRINT = 128,
  O_ALL = 255};

using Dem = std::function<std::string(const std::string &)>;
inline std::string identity_dem(const std::string & s) {return s;}
// "rt/x" and "rq/x" -> "x"; anything else is not a ROS topic
inline std::string ros_dem_topic(const std::string & s)
{
  if (s.rfind("rt/", 0) == 0 || s.rfind("rq/", 0) == 0) {return s.substr(3);}
  return "";
}
inline std::string ros_dem_type(const std::string & s)
{
  size_t p = s.find("::dds_::"); return p == std::string::npos ? s : s.substr(p + 8);
}

// demanglers of one type that differ in their state only; they merge and drop some names
struct OtherDem
{
  std::string pre; size_t keep;
  std::string operator()(const std::string & s) const {return s.size() % 5 == 3 && keep > 3 ? "" : pre + s.substr(0, keep);}
};

struct NT {std::map<std::string, std::set<std::string>> m;};
inline std::string nt_text(const std::map<std::string, std::set<std::string>> & m)
{
  std::string s; for (auto & e : m) {s += e.first + ":{"; for (auto & t : e.second) {s += t + ",";} s += "};";}
  return s;
}
// Converts an output to text, duplicates preserved, order ignored.
inline std::string nt_real_text(const rmw_names_and_types_t & n)
{
  std::multiset<std::string> out;
  for (size_t i = 0; i < n.names.size; ++i) {
    std::multiset<std::string> t;
    for (size_t j = 0; j < n.types[i].size; ++j) {t.insert(n.types[i].data[j] ? n.types[i].data[j] : "(null)");}
    std::string s = std::string(n.names.data[i] ? n.names.data[i] : "(null)") + ":{"; for (auto & y : t) {s += y + ",";} s += "};";
    out.insert(s);
  }
  std::string s; for (auto & x : out) {s += x;}
  return s;
}
inline std::string model_nt(const Model & m, const Dem & dt, const Dem & dy)
{
  std::map<std::string, std::set<std::string>> o;
  for (int k = 0; k < 2; ++k) {
    for (auto & e : (k ? m.r : m.w)) {auto t = dt(e.second.topic); if (!t.empty()) {o[t].insert(dy(e.second.type));}}
  }
  std::multiset<std::string> s; for (auto & e : o) {std::string t = e.first + ":{"; for (auto & y : e.second) {t += y + ",";} s.insert(t + "};");}
  std::string r; for (auto & x : s) {r += x;}
  return r;
}
inline std::string model_nt_node(const Model & m, const MNode & n, bool reader, const Dem & dt, const Dem & dy)
{
  std::map<std::string, std::set<std::string>> o;
  for (auto & g : (reader ? n.r : n.w)) {
    auto & M = reader ? m.r : m.w; auto it = M.find(g);
    if (it == M.end()) {continue;}
    auto t = dt(it->second.topic); if (!t.empty()) {o[t].insert(dy(it->second.type));}
  }
  std::multiset<std::string> s; for (auto & e : o) {std::string t = e.first + ":{"; for (auto & y : e.second) {t += y + ",";} s.insert(t + "};");}
  std::string r; for (auto & x : s) {r += x;}
  return r;
}
inline std::string attribution(const Model & m, const Gid & g, const MEnt & e, bool reader)
{
  auto it = m.p.find(e.part);
  if (it == m.p.end()) {return "_CREATED_BY_BARE_DDS_APP_|_CREATED_BY_BARE_DDS_APP_";}
  for (auto & n : it->second.nodes) {
    for (auto & x : (reader ? n.r : n.w)) {if (x == g) {return n.ns + "|" + n.name;}}
  }
  return "_NODE_NAMESPACE_UNKNOWN_|_NODE_NAME_UNKNOWN_";
}
// every acceptable attribution (several nodes of the participant may have announced the same gid)
inline std::set<std::string> attributions(const Model & m, const Gid & g, const MEnt & e, bool reader)
{
  std::set<std::string> s;
  auto it = m.p.find(e.part);
  if (it != m.p.end()) {
    for (auto & n : it->second.nodes) {
      for (auto & x : (reader ? n.r : n.w)) {if (x == g) {s.insert(n.ns + "|" + n.name);}}
    }
  }
  if (s.empty()) {s.insert(attribution(m, g, e, reader));}
  return s;
}

struct Observer
{
  const Pools & P;
  unsigned mask;
  Dem dt = identity_dem, dy = identity_dem;
  uint64_t h = 0;   // fingerprint of what was seen
  bool others = true;   // ask again with other demanglers
  explicit Observer(const Pools & p, unsigned m) : P(p), mask(m) {}
  void see(const std::string & s) {h = h * 1099511628211ull + hx::hash_str(s);}

  // Compares every selected query of gc with the model; returns "" or a description of the first difference.
  std::string compare(GraphCache & gc, const Model & m)
  {
    rcutils_allocator_t al = rcutils_get_default_allocator();
    if (mask & O_COUNT) {
      for (auto & t : P.qtopic) {
        for (int k = 0; k < 2; ++k) {
          size_t want = 0; for (auto & e : (k ? m.r : m.w)) {want += e.second.topic == t;}
          size_t got = 9999; rmw_ret_t r = k ? gc.get_reader_count(t, &got) : gc.get_writer_count(t, &got);
          if (r != RMW_RET_OK || got != want) {
            return hx::fmt("%s count of topic '%s': expected %zu, got %zu (ret %d)", k ? "reader" : "writer", t.c_str(), want, got, r);
          }
          see(std::to_string(got));
        }
      }
    }
    if (mask & (O_INFO | O_NODEATTR)) {
      for (auto & t : P.qtopic) {
        for (int k = 0; k < 2; ++k) {
          auto d = info(gc, m, t, k, al, dy); if (!d.empty()) {return d;}
          if (others && mask & O_INFO && &t == P.qtopic.data()) {d = info(gc, m, t, k, al, OtherDem{"T", 3}); if (!d.empty()) {return d;}}
        }
      }
    }
    if (mask & O_NT) {
      for (int v = 0; v < (others ? 3 : 1); ++v) {   // with other demanglers on the same contents
        const Dem a = v == 0 ? dt : Dem(OtherDem{v == 1 ? "one/" : "two/", v == 1 ? 4u : 6u}), b = v == 0 ? dy : Dem(OtherDem{"T", v == 1 ? 3u : 9u});
        auto n = rmw_get_zero_initialized_names_and_types();
        rmw_ret_t r = gc.get_names_and_types(a, b, &al, &n);
        std::string got = r == RMW_RET_OK ? nt_real_text(n) : hx::fmt("ret %d", r), want = model_nt(m, a, b);
        rmw_names_and_types_fini(&n);
        if (got != want) {return (v ? "names and types (other demanglers): expected " : "names and types: expected ") + want + " got " + got;}
        see(got);
      }
    }
    if (mask & O_NTNODE) {
      for (auto & q : P.qnode) {
        for (int kv = 0; kv < (others && &q == P.qnode.data() ? 6 : 2); ++kv) {
          int k = kv % 2, v = kv / 2; std::set<std::string> want;
          const Dem a = v == 0 ? dt : Dem(OtherDem{v == 1 ? "one/" : "two/", v == 1 ? 4u : 6u}), b = v == 0 ? dy : Dem(OtherDem{"T", v == 1 ? 3u : 9u});
          for (auto & p : m.p) {
            for (auto & n : p.second.nodes) {if (n.name == q.name && n.ns == q.ns) {want.insert(model_nt_node(m, n, k, a, b));}}
          }
          if (want.empty()) {want.insert("nonexistent");}
          auto n = rmw_get_zero_initialized_names_and_types();
          rmw_ret_t r = k ? gc.get_reader_names_and_types_by_node(q.name, q.ns, a, b, &al, &n) :
            gc.get_writer_names_and_types_by_node(q.name, q.ns, a, b, &al, &n);
          std::string got = r == RMW_RET_OK ? nt_real_text(n) : (r == RMW_RET_NODE_NAME_NON_EXISTENT ? "nonexistent" : hx::fmt("ret %d", r));
          if (r != RMW_RET_OK && (n.names.data || n.types || n.names.size)) {got += " (output touched)";}
          rmw_names_and_types_fini(&n);
          if (!want.count(got)) {
            return hx::fmt("%s names and types of node '%s' '%s': expected ", k ? "reader" : "writer", q.ns.c_str(), q.name.c_str()) +
                   *want.begin() + " got " + got;
          }
          see(got);
        }
      }
    }
    if (mask & O_NUM) {
      size_t want = 0; for (auto & p : m.p) {want += p.second.nodes.size();}
      size_t got = gc.get_number_of_nodes();
      if (got != want) {return hx::fmt("number of nodes: expected %zu, got %zu", want, got);}
      see(std::to_string(got));
    }
    if (mask & O_NODES) {
      std::multiset<std::string> want, want2;
      for (auto & p : m.p) {
        for (auto & n : p.second.nodes) {want.insert(n.ns + "|" + n.name + "|" + p.second.enclave); want2.insert(n.ns + "|" + n.name);}
      }
      for (int k = 0; k < 2; ++k) {
        auto a = rcutils_get_zero_initialized_string_array(), b = a, c = a;
        rmw_ret_t r = gc.get_node_names(&a, &b, k ? nullptr : &c, &al);
        std::multiset<std::string> got; std::string err;
        if (r != RMW_RET_OK) {err = hx::fmt("ret %d", r);} else if (a.size != b.size || (!k && a.size != c.size)) {
          err = hx::fmt("array sizes differ: %zu %zu %zu", a.size, b.size, c.size);
        } else {
          for (size_t i = 0; i < a.size; ++i) {
            auto z = [](const char * s) {return std::string(s ? s : "(null)");};
            got.insert(z(b.data[i]) + "|" + z(a.data[i]) + (k ? "" : "|" + z(c.data[i])));
          }
        }
        (void)!rcutils_string_array_fini(&a); (void)!rcutils_string_array_fini(&b); if (!k) {(void)!rcutils_string_array_fini(&c);}
        if (!err.empty() || got != (k ? want2 : want)) {
          std::string s = "node listing: expected {"; for (auto & x : (k ? want2 : want)) {s += x + " ; ";}
          s += "} got {"; for (auto & x : got) {s += x + " ; ";}
          return s + "} " + err;
        }
        for (auto & x : got) {see(x);}
      }
    }
    if (mask & O_PRINT) {return print(gc, m);}
    return "";
  }

  std::string info(GraphCache & gc, const Model & m, const std::string & t, bool reader, rcutils_allocator_t & al, const Dem & dy)
  {
    std::map<std::string, const MEnt *> want; std::map<std::string, Gid> wg;
    for (auto & e : (reader ? m.r : m.w)) {if (e.second.topic == t) {want[gs(e.first)] = &e.second; wg[gs(e.first)] = e.first;}}
    auto a = rmw_get_zero_initialized_topic_endpoint_info_array();
    rmw_ret_t r = reader ? gc.get_readers_info_by_topic(t, dy, &al, &a) : gc.get_writers_info_by_topic(t, dy, &al, &a);
    std::string who = hx::fmt("%s info of topic '%s': ", reader ? "reader" : "writer", t.c_str()), err;
    if (r != RMW_RET_OK) {return who + hx::fmt("ret %d", r);}
    std::set<std::string> seen;
    for (size_t i = 0; i < a.size && err.empty(); ++i) {
      auto & x = a.info_array[i]; Gid g; memcpy(g.data(), x.endpoint_gid, 16); auto k = gs(g);
      auto it = want.find(k);
      auto z = [](const char * s) {return std::string(s ? s : "(null)");};
      if (it == want.end()) {if (mask & O_INFO) {err = "unexpected endpoint " + k;} continue;}
      if (!seen.insert(k).second) {if (mask & O_INFO) {err = "endpoint listed twice: " + k;} continue;}
      const MEnt & e = *it->second;
      if (mask & O_INFO) {
        std::string got = z(x.topic_type) + " " + hash_str(x.topic_type_hash) + " " + std::to_string(x.endpoint_type) + " " + qos_str(x.qos_profile);
        std::string exp = dy(e.type) + " " + hash_str(e.hash) + " " + std::to_string(reader ? RMW_ENDPOINT_SUBSCRIPTION : RMW_ENDPOINT_PUBLISHER) +
          " " + qos_str(e.qos);
        if (got != exp) {err = "endpoint " + k + ": expected " + exp + " got " + got;}
        see(got);
      }
      if (mask & O_NODEATTR) {
        std::string got = z(x.node_namespace) + "|" + z(x.node_name);
        auto ok = attributions(m, wg[k], e, reader);
        if (!ok.count(got)) {err = "endpoint " + k + " attributed to " + got + " instead of " + *ok.begin();}
        see(got);
      }
    }
    if (err.empty() && (mask & O_INFO) && seen.size() != want.size()) {
      err = hx::fmt("%zu of %zu endpoints listed", seen.size(), want.size());
    }
    (void)!rmw_topic_endpoint_info_array_fini(&a, &al);
    return err.empty() ? err : who + err;
  }

  std::string print(GraphCache & gc, const Model & m)
  {
    std::ostringstream os; os << gc; std::string text = os.str();
    see(text);
    return check_print(text, m);
  }
  static std::string pg(const Gid & g)
  {
    std::string s; for (int i = 0; i < 16; ++i) {s += hx::fmt(i ? ".%x" : "%x", g[i]);}
    return s;
  }
  // The dump is read line by line; only the tokens that matter are looked at.
  static std::string check_print(const std::string & text, const Model & m)
  {
    std::istringstream is(text); std::string line; int sec = 0;
    std::multiset<std::string> gw, gr; std::multiset<std::string> gp; int sub = 0; std::string cur; std::string curpart; bool innode = false;
    auto flush = [&]() {};
    (void)flush;
    std::multiset<std::string> entries; std::string node; std::multiset<std::string> nr, nw;
    auto endnode = [&]() {
        if (!innode) {return;}
        std::string s = "N " + curpart + " " + node + " r["; for (auto & x : nr) {s += x + ",";} s += "] w["; for (auto & x : nw) {s += x + ",";}
        entries.insert(s + "]"); innode = false; nr.clear(); nw.clear();
      };
    auto quoted = [](const std::string & l, const std::string & key) -> std::string {
        size_t p = l.find(key); if (p == std::string::npos) {return "(missing " + key + ")";}
        p = l.find('\'', p + key.size()); if (p == std::string::npos) {return "(missing)";}
        size_t q = l.find('\'', p + 1); return l.substr(p + 1, q == std::string::npos ? q : q - p - 1);
      };
    while (std::getline(is, line)) {
      if (line.find("Discovered data writers") != std::string::npos) {sec = 1; continue;}
      if (line.find("Discovered data readers") != std::string::npos) {sec = 2; continue;}
      if (line.find("Discovered participants") != std::string::npos) {sec = 3; continue;}
      if (line.find("-----") != std::string::npos) {endnode(); continue;}
      if (sec == 1 || sec == 2) {
        if (line.find("gid:") != std::string::npos) {
          entries.insert(std::string(sec == 1 ? "W " : "R ") + quoted(line, "gid:") + " " + quoted(line, "topic name:") + " " + quoted(line, "topic_type:"));
        } else {entries.insert("? " + line);}
      } else if (sec == 3) {
        if (line.find("    gid:") == 0) {endnode(); curpart = quoted(line, "gid:");} else if (line.find("    enclave name") == 0) {
          entries.insert("P " + curpart + " " + quoted(line, "enclave name"));
        } else if (line.find("    nodes:") == 0) {
        } else if (line.find("namespace:") != std::string::npos) {
          endnode(); innode = true; node = quoted(line, "namespace:") + "|" + quoted(line, "name: ");
          size_t p = line.rfind("name:"); node = quoted(line, "namespace:") + "|" + quoted(line.substr(p), "name:");
        } else if (line.find("associated data readers") != std::string::npos) {sub = 1;} else if (line.find("associated data writers") != std::string::npos) {
          sub = 2;
        } else {
          std::string g = line; g.erase(0, g.find_first_not_of(' ') == std::string::npos ? 0 : g.find_first_not_of(' '));
          (sub == 1 ? nr : nw).insert(g);
        }
      }
    }
    endnode();
    std::multiset<std::string> want;
    for (auto & e : m.w) {want.insert("W " + pg(e.first) + " " + e.second.topic + " " + e.second.type);}
    for (auto & e : m.r) {want.insert("R " + pg(e.first) + " " + e.second.topic + " " + e.second.type);}
    for (auto & p : m.p) {
      want.insert("P " + pg(p.first) + " " + p.second.enclave);
      for (auto & n : p.second.nodes) {
        std::multiset<std::string> r, w; for (auto & g : n.r) {r.insert(pg(g));} for (auto & g : n.w) {w.insert(pg(g));}
        std::string s = "N " + pg(p.first) + " " + n.ns + "|" + n.name + " r["; for (auto & x : r) {s += x + ",";} s += "] w["; for (auto & x : w) {s += x + ",";}
        want.insert(s + "]");
      }
    }
    if (want != entries) {
      std::string s = "printed graph differs: expected"; for (auto & x : want) {if (!entries.count(x)) {s += " missing{" + x + "}";}}
      for (auto & x : entries) {if (!want.count(x)) {s += " extra{" + x + "}";}}
      return s + " (multiplicities may differ)";
    }
    return "";
  }
};

// ---------------------------------------------------------------- default pools
inline Gid mkgid(uint8_t kind, uint8_t n)
{
  Gid g; for (int i = 0; i < 16; ++i) {g[i] = static_cast<uint8_t>(0x11 * (i % 3) + 1);}
  g[12] = kind; g[15] = n; return g;   // all share the first 12 bytes, as the entities of one DDS participant do
}
// participants as DDS numbers them (the last byte of a 12-byte prefix differs) and their endpoints (an entity id follows)
inline Gid ddsgid(int participant, int endpoint)
{
  Gid g{{0x01, 0x0f, 0x45, 0xd2, 0xb3, 0xf4, 0xa5, 0xb6, 0xc7, 0, 0, static_cast<uint8_t>(participant), 0, 0, 0x01, 0xc1}};
  if (endpoint >= 0) {g[14] = static_cast<uint8_t>(0x12 + endpoint); g[15] = 0x03;}
  return g;
}
inline rosidl_type_hash_t mkhash(uint8_t seed)
{
  rosidl_type_hash_t h; h.version = 1; for (int i = 0; i < 32; ++i) {h.value[i] = static_cast<uint8_t>(seed + i * 7);}
  return h;
}
inline rmw_qos_profile_t mkqos(int k)
{
  rmw_qos_profile_t q; memset(&q, 0, sizeof q);
  q.history = k % 2 ? RMW_QOS_POLICY_HISTORY_KEEP_ALL : RMW_QOS_POLICY_HISTORY_KEEP_LAST;
  q.depth = 3 + k; q.reliability = k % 2 ? RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT : RMW_QOS_POLICY_RELIABILITY_RELIABLE;
  q.durability = k % 2 ? RMW_QOS_POLICY_DURABILITY_VOLATILE : RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL;
  q.deadline = {static_cast<uint64_t>(10 + k), static_cast<uint64_t>(20 + k)};
  q.lifespan = {static_cast<uint64_t>(30 + k), static_cast<uint64_t>(40 + k)};
  q.liveliness = k % 2 ? RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC : RMW_QOS_POLICY_LIVELINESS_AUTOMATIC;
  q.liveliness_lease_duration = {static_cast<uint64_t>(50 + k), static_cast<uint64_t>(60 + k)};
  q.avoid_ros_namespace_conventions = k % 2;
  return q;
}
inline MNode mknode(const std::string & ns, const std::string & name, std::vector<Gid> r = {}, std::vector<Gid> w = {})
{
  MNode n; n.ns = ns; n.name = name; n.r = std::move(r); n.w = std::move(w); return n;
}
inline Pools default_pools()
{
  Pools P;
  for (int i = 0; i < 4; ++i) {P.gid.push_back(ddsgid(i / 2, i));}
  for (int i = 0; i < 3; ++i) {P.part.push_back(ddsgid(i, -1));}
  P.topic = {"rt/chat", "rt/chatter", "rq/chat", "raw"};
  P.type = {"pkg::dds_::Str", "pkg2::dds_::Str", "pkg::dds_::Int", ""};
  P.enclave = {"/encl/a", "/encl/b", ""};
  P.node = {{"talker", "/"}, {"talker", "/ns"}, {"/", "talker"}};
  P.hash = {mkhash(3), mkhash(200)};
  P.qos = {mkqos(0), mkqos(1)};
  P.qtopic = {"rt/chat", "rt/chatter", "rq/chat", "raw", "", "rt/cha"};
  P.qnode = {{"talker", "/"}, {"talker", "/ns"}, {"/", "talker"}, {"", ""}, {"talke", "/"}};
  return P;
}
}  // namespace gm
