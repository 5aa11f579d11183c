// C14 failed operations and rollback, C15 one complete announcement per operation: every bounded history of context
// operations x every pattern of publish failures, on the real Context.
#include <map>
#include <set>

#include "clock.hpp"
#include "graph_model.hpp"
#include "rmw/error_handling.h"
#include "rmw_dds_common/context.hpp"

using hx::Case;
using hx::Ctx;
using hx::fmt;
using gm::Gid;
using gm::MNode;
using gm::Msg;
using rmw_dds_common::Context;

enum K {ADD_NODE, REM_NODE, ADD_PUB, REM_PUB, ADD_SUB, REM_SUB, ADD_CLI, REM_CLI, ADD_SRV, REM_SRV};
static const char * KN[] = {"add_node", "remove_node", "add_publisher", "remove_publisher", "add_subscriber", "remove_subscriber", "add_client", "remove_client", "add_service", "remove_service"};
static const int FAILS[] = {RMW_RET_OK, RMW_RET_ERROR, RMW_RET_TIMEOUT, RMW_RET_UNSUPPORTED, RMW_RET_BAD_ALLOC, RMW_RET_INVALID_ARGUMENT, RMW_RET_INCORRECT_RMW_IMPLEMENTATION, -1, RMW_RET_OK, RMW_RET_OK,
  RMW_RET_OK, RMW_RET_NODE_NAME_NON_EXISTENT, 256, 1000};
constexpr int NFAIL = 14, NOPUB = 8, NOCB = 9, NOBOTH = 10;
static const char * fname(int f)
{
  static std::string s;
  if (f == NOPUB) {return "no publisher";}
  if (f == NOCB) {return "no publish callback";}
  if (f == NOBOTH) {return "no publisher and no callback";}
  s = fmt("publish returns %d", FAILS[f]); return s.c_str();
}
struct Op {int k, n, e, f;};
static int enc(const Op & o) {return ((o.f * 1000 + o.e) * 1000 + o.n) * 10 + o.k;}
static Op dec(int i) {Op o; o.k = i % 10; i /= 10; o.n = i % 1000; i /= 1000; o.e = i % 1000; o.f = i / 1000; return o;}
constexpr int NOISE = 999;   // "node" of an operation of the middleware: discovery concerning the operation's endpoint index
static const char * NOISES[] = {"writer discovered", "reader discovered", "writer lost", "reader lost", "remote participant discovered", "remote participant announces", "remote participant gone", "remote endpoints discovered"};
constexpr int NNOISE = 8;
static std::string opstr(const Op & o)
{
  if (o.n == NOISE) {return NOISES[o.e];}
  std::string s = fmt("%s(node %d", KN[o.k], o.n); if (o.k >= ADD_PUB) {s += fmt(", endpoint %d", o.e);}
  return s + ")" + (o.f ? std::string(" [") + fname(o.f) + "]" : "");
}

static bool g_same = false;   // readers have the gids of writers
static int g_byte = 15;   // the byte in which endpoint gids differ
static Gid wgid(int e) {Gid g; g.fill(0x41); g[static_cast<size_t>(g_byte)] = static_cast<uint8_t>(e * 2 + 1); g[static_cast<size_t>(g_byte + 5) % 16] ^= static_cast<uint8_t>(e >> 7); return g;}
static Gid rgid(int e) {if (g_same) {return wgid(e);} Gid g; g.fill(0x41); g[static_cast<size_t>(g_byte)] = static_cast<uint8_t>(255 - e * 2 - 1); g[static_cast<size_t>(g_byte + 5) % 16] ^= static_cast<uint8_t>(e >> 7); return g;}
static Gid like_endpoints(int b) {Gid g; g.fill(0x41); g[11] = static_cast<uint8_t>(b); g[12] = g[13] = 0; g[14] = 1; g[15] = 0xc1; return g;}
static int g_name = 0;   // > 0: node names have that many characters, < 0: they contain that byte
static gm::NodeName odd_name(int k)
{
  auto nm = [](int i) {
      std::string b;
      if (g_name > 0) {
        for (int j = 0; j < g_name; ++j) {b += static_cast<char>('a' + (j * 7 + j / 26) % 26);}
        if (i == 1) {b.back() ^= 1;} else if (i == 2) {b[0] ^= 2;} else if (i == 3) {b[b.size() / 2] ^= 4;} else if (i == 4) {b.pop_back();}
      } else {
        static const int X[] = {0, 0x80, 0x20, 1}; b = i == 4 ? "abcd" : "ab?cd"; if (i < 4) {b[2] = static_cast<char>(-g_name ^ X[i]); if (!b[2]) {b[2] = '\x7f';}}
      }
      return b;
    };
  return k < 5 ? gm::NodeName{nm(k), nm((k + 1) % 5)} : k < 10 ? gm::NodeName{nm(k - 5), "/"} : gm::NodeName{"/", nm(k - 10)};
}
static void set_mode(int m)
{
  g_name = m / 100 > 1000 ? -(m / 100 - 1000) : m / 100 > 400 ? (512 << (m / 100 - 401) / 3) + (m / 100 - 401) % 3 - 1 : m / 100; m %= 100; g_byte = m % 16; g_same = m >= 16;
}
static gm::NodeName nodename(int n)
{
  if (g_name && n < 15) {return odd_name(n);}
  static const gm::NodeName N[] = {{"talker", "/"}, {"talker", "/ns"}, {"listener", "/"}, {"/", "talker"}, {"talke", "r/"}, {"", "/"}, {"talker", ""}};
  return n < 7 ? N[n] : gm::NodeName{fmt("node_%d", n), "/"};
}

static const int64_t STEPS[] = {0, 2, 3700, 40 * 86400, 5000000000};
struct World
{
  Context cx; rmw_publisher_t pub;
  Gid part = like_endpoints(0x41), remote = like_endpoints(0x42);   // participants share the first bytes with the endpoints
  std::vector<MNode> nodes;                 // model of the local nodes
  // what the callback saw in the last operation
  int calls = 0; const rmw_publisher_t * seen_pub = nullptr; std::string seen; Msg seen_msg;
  int ret = RMW_RET_OK;
  MNode * find(int n)
  {
    auto w = nodename(n);
    for (auto & x : nodes) {if (x.name == w.name && x.ns == w.ns) {return &x;}}
    return nullptr;
  }
  int copies(int n) {auto w = nodename(n); int c = 0; for (auto & x : nodes) {c += x.name == w.name && x.ns == w.ns;} return c;}
  int64_t step = 0;   // seconds that pass before each operation
  explicit World(int base)
  {
    memset(&pub, 0, sizeof pub); cx.gid = gm::to_rmw(part); cx.pub = &pub; cx.sub = nullptr;
    cx.publish_callback = callback();
    cx.graph_cache.add_participant(cx.gid, "/enclave");
    step = STEPS[base / 10]; base %= 10; g_skipped = 0;
    if (base == 1) {   // a remote participant with equal node names and the same gids announced, everything discovered
      cx.graph_cache.add_participant(gm::to_rmw(remote), "/other");
      cx.graph_cache.update_participant_entities(gm::make_msg(remote, {gm::mknode("/", "talker", {rgid(0), rgid(7)}, {wgid(0)}), gm::mknode("/ns", "talker", {}, {wgid(7)}), gm::mknode("/", "talker")}));
      for (int e = 0; e < 4; ++e) {
        (void)cx.graph_cache.add_writer(gm::to_rmw(wgid(e)), "rt/chat", "t", gm::mkhash(1), gm::to_rmw(part), gm::mkqos(0));
        (void)cx.graph_cache.add_reader(gm::to_rmw(rgid(e)), "rt/chat", "t", gm::mkhash(1), gm::to_rmw(e % 2 ? remote : part), gm::mkqos(1));
      }
    }
  }
  Context::publish_callback_t callback()
  {
    return [this](const rmw_publisher_t * p, const void * m) -> rmw_ret_t {
             calls++; seen_pub = p; seen_msg = *static_cast<const Msg *>(m); seen = gm::msg_text(seen_msg); return ret;
           };
  }
  // what discovery does meanwhile; none of it concerns the local nodes
  void noise(int e)
  {
    auto & g = cx.graph_cache; auto h = gm::mkhash(1);
    switch (e) {
      case 0: (void)g.add_writer(gm::to_rmw(wgid(0)), "rt/chat", "t", h, cx.gid, gm::mkqos(0)); break;
      case 1: (void)g.add_reader(gm::to_rmw(rgid(0)), "rt/chat", "t", h, cx.gid, gm::mkqos(1)); break;
      case 2: (void)g.remove_writer(gm::to_rmw(wgid(0))); break;
      case 3: (void)g.remove_reader(gm::to_rmw(rgid(0))); break;
      case 4: g.add_participant(gm::to_rmw(remote), "/other"); break;
      case 5: g.update_participant_entities(gm::make_msg(remote, {gm::mknode("/", "talker", {rgid(40)}, {wgid(41)}), gm::mknode("/ns", "talker")})); break;
      case 6: (void)g.remove_participant(gm::to_rmw(remote)); break;
      default:
        (void)g.add_writer(gm::to_rmw(wgid(41)), "rt/chat", "t", h, gm::to_rmw(remote), gm::mkqos(0));
        (void)g.add_reader(gm::to_rmw(rgid(40)), "rt/chat", "t", h, gm::to_rmw(remote), gm::mkqos(0));
    }
  }
  rmw_ret_t apply(const Op & o)
  {
    g_skipped += step;
    if (o.n == NOISE) {noise(o.e); return RMW_RET_OK;}
    auto n = nodename(o.n); rmw_gid_t w = gm::to_rmw(wgid(o.e)), r = gm::to_rmw(rgid(o.e), nullptr);
    calls = 0; seen_pub = nullptr; seen.clear(); ret = FAILS[o.f];
    if (o.f == NOPUB || o.f == NOBOTH) {cx.pub = nullptr;}
    if (o.f == NOCB || o.f == NOBOTH) {cx.publish_callback = nullptr;}
    rmw_ret_t x = RMW_RET_OK;
    switch (o.k) {
      case ADD_NODE: x = cx.add_node_graph(n.name, n.ns); break;
      case REM_NODE: x = cx.remove_node_graph(n.name, n.ns); break;
      case ADD_PUB: x = cx.add_publisher_graph(w, n.name, n.ns); break;
      case REM_PUB: x = cx.remove_publisher_graph(w, n.name, n.ns); break;
      case ADD_SUB: x = cx.add_subscriber_graph(r, n.name, n.ns); break;
      case REM_SUB: x = cx.remove_subscriber_graph(r, n.name, n.ns); break;
      case ADD_CLI: x = cx.add_client_graph(w, r, n.name, n.ns); break;
      case REM_CLI: x = cx.remove_client_graph(w, r, n.name, n.ns); break;
      case ADD_SRV: x = cx.add_service_graph(r, w, n.name, n.ns); break;
      case REM_SRV: x = cx.remove_service_graph(r, w, n.name, n.ns); break;
    }
    cx.pub = &pub; if (!cx.publish_callback) {cx.publish_callback = callback();}
    return x;
  }
  // model: `done` false for a rolled back addition
  void model(const Op & o)
  {
    if (o.n == NOISE) {return;}
    bool add = o.k % 2 == 0; if (add && o.f) {return;}
    MNode * n = find(o.n); Gid w = wgid(o.e), r = rgid(o.e);
    if (o.k == ADD_NODE) {auto x = nodename(o.n); nodes.push_back(gm::mknode(x.ns, x.name)); return;}
    if (!n) {return;}
    if (o.k == REM_NODE) {nodes.erase(nodes.begin() + (n - nodes.data())); return;}
    bool hw = o.k != ADD_SUB && o.k != REM_SUB, hr = o.k != ADD_PUB && o.k != REM_PUB;
    auto del = [](std::vector<Gid> & v, const Gid & g) {for (size_t i = 0; i < v.size(); ++i) {if (v[i] == g) {v.erase(v.begin() + static_cast<long>(i)); return;}}};
    if (hw) {if (add) {n->w.push_back(w);} else {del(n->w, w);}}
    if (hr) {if (add) {n->r.push_back(r);} else {del(n->r, r);}}
  }
  bool known(const Gid & g) {for (auto & n : nodes) {for (auto & x : n.r) {if (x == g) {return true;}} for (auto & x : n.w) {if (x == g) {return true;}}} return false;}
  // within the preconditions: endpoints are created on an existing node with fresh gids and destroyed where they are
  bool enabled(const Op & o)
  {
    if (o.k == ADD_NODE) {return true;}
    MNode * n = find(o.n); if (!n) {return false;}
    if (o.k == REM_NODE) {return true;}
    bool hw = o.k != ADD_SUB && o.k != REM_SUB, hr = o.k != ADD_PUB && o.k != REM_PUB, has_w = false, has_r = false;
    for (auto & g : n->w) {has_w = has_w || g == wgid(o.e);}
    for (auto & g : n->r) {has_r = has_r || g == rgid(o.e);}
    if (o.k % 2 == 0) {return !(hw && known(wgid(o.e))) && !(hr && known(rgid(o.e)));}
    return (!hw || has_w) && (!hr || has_r);
  }
  // the local graph, as the next announcement would describe it
  std::string local()
  {
    Msg m = cx.graph_cache.add_node(cx.gid, "probe", "/probe");
    for (size_t i = 0; i < m.node_entities_info_seq.size(); ++i) {
      if (m.node_entities_info_seq[i].node_name == "probe") {m.node_entities_info_seq.erase(m.node_entities_info_seq.begin() + static_cast<long>(i)); return gm::msg_text(m);}
    }
    return "(probe lost) " + gm::msg_text(m);
  }
  // everything else in the graph
  std::string dump()
  {
    std::ostringstream o; o << cx.graph_cache; std::istringstream in(o.str()); std::multiset<std::string> l; std::string x;
    while (std::getline(in, x)) {l.insert(x);}
    std::string s; for (auto & k : l) {s += k + "\n";}
    return s;
  }
  std::string text() {return gm::gs(part) + ":" + gm::nodes_text(nodes);}
};

// case: v = {base, ops...}; only the last operation is judged (all prefixes are cases of their own)
static void exec14(Ctx & x, const Case & c)
{
  set_mode(c.mode);
  World W(c.v[0]); size_t n = c.v.size();
  for (size_t i = 1; i + 1 < n; ++i) {Op o = dec(c.v[i]); (void)W.apply(o); W.model(o); x.transitions++;}
  Op o = dec(c.v[n - 1]); bool add = o.k % 2 == 0;
  std::string before, dump_before;
  if (add && o.f) {
    World B(c.v[0]); for (size_t i = 1; i + 1 < n; ++i) {(void)B.apply(dec(c.v[i]));}
    dump_before = B.dump(); before = B.local();
  }
  rmw_ret_t r = W.apply(o); x.transitions++;
  if ((r == RMW_RET_OK) != (o.f == 0)) {x.fail(fmt("%s returned %d", opstr(o).c_str(), r)); return;}
  if (add && o.f) {
    std::string da = W.dump(), after = W.local();
    if (after != before) {x.fail("failed addition changed the local graph from " + before + " to " + after); return;}
    if (da != dump_before) {x.fail("failed addition changed the graph from " + dump_before + " to " + da); return;}
    x.outcome(hx::hash_str(after) + static_cast<uint64_t>(o.f));
  } else {
    std::string after, dup;
    if (o.k == REM_NODE && W.copies(o.n) > 1) {   // which of several equal nodes is removed is open
      std::vector<std::string> cand; auto nm = nodename(o.n);
      for (size_t i = 0; i < W.nodes.size(); ++i) {
        if (W.nodes[i].name != nm.name || W.nodes[i].ns != nm.ns) {continue;}
        auto keep = W.nodes; W.nodes.erase(W.nodes.begin() + static_cast<long>(i)); cand.push_back(W.text()); W.nodes = keep;
      }
      after = W.local();
      if (std::find(cand.begin(), cand.end(), after) == cand.end()) {x.fail("removal did not remove exactly one of the nodes: " + after); return;}
    } else {
      W.model(o); after = W.local();
      if (!add && after != W.text()) {x.fail("removal left " + after + " instead of " + W.text()); return;}
    }
    if (!o.f && W.calls && W.seen != after) {x.fail("announced " + W.seen + " while the local graph is " + after); return;}
    x.outcome(hx::hash_str(after) + static_cast<uint64_t>(o.f));
  }
  x.traces++;
}
static void exec15(Ctx & x, const Case & c)
{
  set_mode(c.mode);
  World W(c.v[0]); size_t n = c.v.size();
  for (size_t i = 1; i + 1 < n; ++i) {Op o = dec(c.v[i]); (void)W.apply(o); W.model(o); x.transitions++;}
  Op o = dec(c.v[n - 1]), tent = o; tent.f = 0;
  (void)W.apply(o); x.transitions++;
  W.model(tent);   // the announcement shows the updated graph even if publishing then fails
  if (W.calls != 1) {x.fail(fmt("%s published %d times", opstr(o).c_str(), W.calls)); return;}
  if (W.seen_pub != &W.pub) {x.fail("published with another publisher than the context's"); return;}
  if (W.seen != W.text()) {x.fail(opstr(o) + " announced " + W.seen + " instead of " + W.text()); return;}
  x.outcome(hx::hash_str(W.seen) + static_cast<uint64_t>(o.k)); x.traces++;
}

static void enumerate(Ctx & x)
{
  bool c14 = x.prop == "C14", asan = x.variant == "asan", th = x.thorough;
  auto go = [&](int mode, const std::vector<int> & v) {if (!x.stop() && x.mine()) {Case c; c.mode = mode; c.v = v; x.states++; x.run(c);}};
  bool same = false, noisy = false;
  // all histories: nodes 0..nn-1, endpoints 0..ne-1 (one kind of endpoint per index when `bykind`), failure kinds per operation
  std::function<void(std::vector<int> &, int, int, int, const std::vector<int> &, bool)> rec = [&](std::vector<int> & v, int depth, int nn, int ne, const std::vector<int> & fs, bool dup) {
      if (x.stop()) {return;}
      World W(v[0]); for (size_t i = 1; i < v.size(); ++i) {W.model(dec(v[i]));}
      if (noisy && depth > 1) {for (int e = 0; e < NNOISE; ++e) {v.push_back(enc({ADD_NODE, NOISE, e, 0})); rec(v, depth - 1, nn, ne, fs, dup); v.pop_back();}}
      for (int k = 0; k < 10; ++k) {for (int n = 0; n < nn; ++n) {for (int e = 0; e < (k < 2 ? 1 : ne); ++e) {
            Op o{k, n, e, 0};
            if (!W.enabled(o)) {continue;}
            int cp = W.copies(n);
            if (k == ADD_NODE && (dup ? cp >= 2 : cp >= 1)) {continue;}
            if (depth == 1) {
              for (int f = 0; f < NFAIL; ++f) {
                if (!c14 && f > 2) {continue;}
                o.f = f; v.push_back(enc(o)); go(15, v); if (same) {go(31, v);} v.pop_back();
              }
            } else {
              if (k == REM_NODE && cp > 1) {continue;}
              for (int f : fs) {o.f = f; v.push_back(enc(o)); rec(v, depth - 1, nn, ne, fs, dup); v.pop_back();}
            }
          }}}
    };
  // every history of every length up to the bound is judged at its last operation
  auto all = [&](int base, int maxd, int nn, int ne, const std::vector<int> & fs, bool dup) {
      for (int d = 1; d <= maxd; ++d) {std::vector<int> v = {base}; rec(v, d, nn, ne, fs, dup);}
    };
  int D = th ? 1 : 0;
  same = true; all(0, asan ? 3 : 4, 1, 2, {0, 1}, false); same = false;
  if (c14) {
    all(0, asan ? 3 : 5 + D, 1, 1, {0, 1}, true);      // one node name, duplicates
    all(0, asan ? 3 : 4 + D, 2, 2, {0, 1}, true);
    all(1, asan ? 3 : 4, 2, 1, {0, NOCB}, true);       // with a remote participant
    all(0, 3 + (asan ? 0 : D), 3, 2, {0, NOPUB, 7}, true);
  } else {
    all(0, asan ? 3 : 6 + D, 1, 2, {0}, false);
    all(0, asan ? 3 : 5, 2, 2, {0, 1}, false);
    all(1, asan ? 3 : 5, 3, 1, {0, NOCB}, false);
  }
  // discovery goes on meanwhile; time passes between the operations
  noisy = true; all(0, asan ? 3 : 4 + D, 1, 1, {0, 1}, false); all(1, asan ? 2 : 4, 1, 1, {0, NOCB}, false); noisy = false;
  for (int t = 1; t < 5; ++t) {all(10 * t + t % 2, asan ? 2 : 3 + D, 2, 1, {0, 1}, false); all(10 * t, asan ? 2 : 4 + D, 1, 1, {0, 1}, c14);}
  // larger graphs: n nodes with k endpoints each; the operation concerns every position; endpoint gids differ in every byte
  int N = th ? 14 : 9;
  for (int n = 1; n <= N; ++n) {for (int k = 0; k <= (th ? 8 : 4); ++k) {for (int pos = 0; pos < n; ++pos) {
        if (n * k > 100) {continue;}
        std::vector<int> v = {n % 2}; int e = 0;
        std::vector<int> mine_e;
        for (int i = 0; i < n; ++i) {v.push_back(enc({ADD_NODE, i, 0, 0}));}
        for (int j = 0; j < k; ++j) {for (int i = 0; i < n && e < 60; ++i, ++e) {static const int A[] = {ADD_PUB, ADD_SUB, ADD_CLI, ADD_SRV}; int kind = A[(i + j) % 4]; v.push_back(enc({kind, i, e, 0})); if (i == pos) {mine_e.push_back(kind * 100 + e);}}}
        std::vector<Op> last = {{REM_NODE, pos, 0, 0}, {ADD_NODE, 20, 0, 0}, {ADD_PUB, pos, 61, 0}, {ADD_SUB, pos, 61, 0}, {ADD_CLI, pos, 61, 0}, {ADD_SRV, pos, 61, 0}};
        if (c14) {last.push_back({ADD_NODE, pos, 0, 0});}
        for (int me : mine_e) {last.push_back({me / 100 + 1, pos, me % 100, 0});}
        for (auto o : last) {for (int f : {0, 1, NOCB}) {
            if (!c14 && f > 1) {continue;}
            o.f = f; v.push_back(enc(o)); go((pos + n + k) % 16, v);
            // then one more operation after the failure
            if (f && o.k != REM_NODE) {
              for (Op p : {Op{ADD_NODE, 21, 0, 0}, Op{ADD_CLI, pos, 62, 0}, Op{REM_NODE, (pos + 1) % n, 0, 0}}) {
                if (o.k == ADD_NODE && p.k == REM_NODE && n == 1) {continue;}
                v.push_back(enc(p)); go((pos + n + k) % 16, v); v.pop_back();
              }
            }
            v.pop_back();
          }}
      }}}
  // after many operations of one kind, alternately or not, succeeding or failing
  std::vector<int> ages = {127, 128, 255, 256, 257}; if (th && !asan) {ages.insert(ages.end(), {65535, 65536});}
  for (int n : ages) {
    const std::vector<std::pair<Op, Op>> two = {{{ADD_PUB, 3, 9, 0}, {REM_PUB, 3, 9, 0}}, {{ADD_NODE, 2, 0, 0}, {REM_NODE, 2, 0, 0}}, {{ADD_CLI, 3, 9, 0}, {REM_CLI, 3, 9, 0}}, {{ADD_SRV, 3, 9, 0}, {REM_SRV, 3, 9, 0}},
      {{ADD_SUB, 3, 9, 1}, {ADD_SUB, 3, 9, 1}}, {{ADD_NODE, 2, 0, 1}, {ADD_NODE, 2, 0, 1}}, {{ADD_SRV, 3, 9, 1}, {ADD_CLI, 3, 9, NOPUB}}, {{ADD_SUB, 3, 9, 0}, {REM_SUB, 3, 9, 1}}};
    for (auto & t : two) {
      std::vector<int> v = {n % 2, enc({ADD_NODE, 3, 0, 0}), enc({ADD_PUB, 3, 5, 0})};
      for (int i = 0; i < n / 2 * 2; ++i) {v.push_back(enc(i % 2 ? t.second : t.first));}
      if (n % 2) {v.push_back(enc({ADD_SUB, 3, 6, 0}));}
      for (Op o : {Op{ADD_NODE, 4, 0, 0}, Op{ADD_PUB, 3, 7, 0}, Op{ADD_SUB, 3, 7, 0}, Op{ADD_CLI, 3, 7, 0}, Op{ADD_SRV, 3, 7, 0}, Op{REM_PUB, 3, 5, 0}, Op{REM_NODE, 3, 0, 0}}) {
        for (int f : {0, 1}) {o.f = f; v.push_back(enc(o)); go(15, v); v.pop_back();}
      }
    }
  }
  // node names of every length and with every byte (1..300; around 512, 1024, 4096...: 401 on; bytes: 1000 on)
  {
    std::vector<int> ids; for (int i = 1; i <= 300; ++i) {ids.push_back(i);} for (int i = 401; i <= (th ? 424 : 412); ++i) {ids.push_back(i);} for (int b = 1; b < 256; ++b) {ids.push_back(1000 + b);}
    for (int id : ids) {
      std::vector<int> base = {id % 2}; for (int n : {0, 5, 1, 6, 10, 2}) {base.push_back(enc({ADD_NODE, n, 0, 0}));}
      base.push_back(enc({ADD_CLI, 0, 0, 0})); base.push_back(enc({ADD_PUB, 1, 1, 0})); base.push_back(enc({ADD_SUB, 5, 2, 0})); base.push_back(enc({ADD_SRV, 10, 3, 0}));
      for (Op o : {Op{ADD_NODE, 3, 0, 0}, Op{ADD_NODE, 4, 0, 0}, Op{ADD_NODE, 7, 0, 0}, Op{ADD_NODE, 11, 0, 0}, Op{REM_NODE, 1, 0, 0}, Op{REM_NODE, 5, 0, 0}, Op{REM_NODE, 10, 0, 0}, Op{ADD_PUB, 2, 7, 0}, Op{ADD_SUB, 6, 7, 0}, Op{ADD_CLI, 1, 7, 0},
          Op{ADD_SRV, 10, 7, 0}, Op{REM_CLI, 0, 0, 0}, Op{REM_PUB, 1, 1, 0}, Op{REM_SUB, 5, 2, 0}, Op{REM_SRV, 10, 3, 0}}) {
        if (id < 300 && id > 40 && id % 4 && !th && asan) {continue;}
        for (int f : {0, 1}) {o.f = f; auto v = base; v.push_back(enc(o)); go(100 * id + 15, v);}
      }
    }
  }
  // populations around the powers of two: n nodes, or one node with n endpoints of one kind or of all kinds
  for (int p = 32; p <= (th ? 512 : 256); p *= 2) {for (int n = p - 1; n <= p + 1; ++n) {for (int kind : std::vector<int>{ADD_NODE, ADD_PUB, ADD_SUB, ADD_CLI, ADD_SRV, -1}) {
        auto kd = [kind](int i) -> int {return kind < 0 ? ADD_PUB + 2 * (i % 4) : kind;};
        std::vector<int> v = {n % 2};
        if (kind != ADD_NODE) {v.push_back(enc({ADD_NODE, 3, 0, 0}));}
        for (int i = 0; i < n; ++i) {v.push_back(kind == ADD_NODE ? enc({ADD_NODE, i + 7, 0, 0}) : enc({kd(i), 3, i, 0}));}
        for (int k : {0, n / 2, n - 1, n}) {for (int f : {0, 1}) {
            Op o = kind == ADD_NODE ? Op{(k == n ? ADD_NODE : REM_NODE), k + 7, 0, f} : Op{kd(k) + (k == n ? 0 : 1), 3, k, f};
            v.push_back(enc(o)); go((n + k) % 16, v);
            if (f && kind == ADD_NODE && k == n) {v.push_back(enc({ADD_PUB, 7 + k / 2, 998, 0})); go((n + k) % 16, v); v.pop_back();}
            v.pop_back();
          }}
      }}}
}
static std::string describe(const Case & c)
{
  set_mode(c.mode); std::string s = g_name > 0 ? fmt("node names of %d characters, ", g_name) : g_name ? fmt("node names with the byte 0x%02x, ", -g_name) : ""; if (c.v[0] / 10) {s += fmt("%lld s between operations, ", static_cast<long long>(STEPS[c.v[0] / 10]));} s += c.v[0] % 10 ? "with a remote participant:" : "alone:"; size_t n = c.v.size(), from = n > 13 ? n - 12 : 1;
  if (from > 1) {s += fmt(" ... %zu operations ...", from - 1);}
  for (size_t i = from; i < n; ++i) {s += (i > from ? "; " : " ") + opstr(dec(c.v[i]));}
  return s;
}

int main(int argc, char ** argv)
{
  return hx::main_impl(argc, argv, [](Ctx & x, hx::Prop & p) {
    if (x.prop == "C14") {p.exec = exec14;} else if (x.prop == "C15") {p.exec = exec15;} else {return false;}
    p.enumerate = enumerate; p.describe = describe; return true;
  });
}
