// C31 a whole domain of participants: real Contexts exchange their real announcements (reliable, keep last 1: older ones may be
// skipped) and discovery events (one FIFO per pair of participants).  A participant may lose another one for a while (lease
// expired): it then discovers again all there is, and hears the current announcement again.  Every order of the local operations and the arrivals
// (one per equivalence class: events at different participants commute, sleep sets) is executed; when everything has arrived,
// every participant and a late joiner must see the same, right graph.
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <unordered_set>

#include "graph_model.hpp"
#include "rmw/error_handling.h"
#include "rmw_dds_common/context.hpp"

using hx::Case;
using hx::Ctx;
using hx::fmt;
using gm::Gid;
using gm::MNode;
using gm::Msg;
using rmw_dds_common::Context;

enum K {ADD_NODE, REM_NODE, ADD_PUB, REM_PUB, ADD_SUB, REM_SUB, ADD_CLI, REM_CLI, ADD_SRV, REM_SRV, LEAVE};
static const char * KN[] = {"add_node", "remove_node", "add_publisher", "remove_publisher", "add_subscriber", "remove_subscriber", "add_client", "remove_client", "add_service", "remove_service", "leave"};
struct Op {int k, n, e, f;};   // node, endpoint, publish fails
static int enc(const Op & o) {return ((o.f * 10 + o.e) * 10 + o.n) * 20 + o.k;}
static Op dec(int i) {Op o; o.k = i % 20; i /= 20; o.n = i % 10; i /= 10; o.e = i % 10; o.f = i / 10; return o;}
static std::string opstr(const Op & o)
{
  if (o.k == LEAVE) {return o.n ? "leave (participant first)" : "leave";}
  return fmt("%s(node %d", KN[o.k], o.n) + (o.k >= ADD_PUB ? fmt(", endpoint %d)", o.e) : ")") + (o.f ? " [publish fails]" : "");
}
static gm::NodeName nodename(int n) {static const gm::NodeName N[] = {{"talker", "/"}, {"talker", "/ns"}, {"listener", "/"}}; return N[n];}
static Gid wgid(int p, int e) {return gm::ddsgid(p, 2 * e);}
static Gid rgid(int p, int e) {Gid g = gm::ddsgid(p, 2 * e + 1); g[15] = 0x04; return g;}
static std::string enclave(int p) {return fmt("/enclave/%d", p);}

// an item of discovery: participant known, endpoint there, endpoint gone, participant gone
struct Item {int what; bool reader; int e; const char * topic;};
// one participant as the model sees it
struct Part
{
  std::vector<MNode> nodes, said;              // now; as last announced
  std::map<Gid, gm::MEnt> w, r; bool gone = false;
  std::vector<Item> items; int announcements = 0;
};
static gm::MEnt entity(int p, bool reader, const char * topic)
{
  gm::MEnt e; e.topic = topic; e.type = reader ? "pkg::dds_::Str" : p % 2 ? "pkg2::dds_::Str" : "pkg::dds_::Str"; e.hash = gm::mkhash(static_cast<uint8_t>(3 + p)); e.part = gm::ddsgid(p, -1); e.qos = gm::mkqos(reader);
  return e;
}
static const char * wtopic(int k) {return k == ADD_CLI ? "rq/addRequest" : k == ADD_SRV ? "rr/addReply" : "rt/chat";}
static const char * rtopic(int k) {return k == ADD_CLI ? "rr/addReply" : k == ADD_SRV ? "rq/addRequest" : "rt/chat";}
static const char * lasting(const std::string & s) {for (auto t : {"rt/chat", "rq/addRequest", "rr/addReply"}) {if (s == t) {return t;}} return "";}
static bool hasw(int k) {k &= ~1; return k == ADD_PUB || k == ADD_CLI || k == ADD_SRV;}
static bool hasr(int k) {k &= ~1; return k == ADD_SUB || k == ADD_CLI || k == ADD_SRV;}
static MNode * find(Part & p, int n) {for (auto & x : p.nodes) {if (x.name == nodename(n).name && x.ns == nodename(n).ns) {return &x;}} return nullptr;}
static bool has(const std::vector<Gid> & v, const Gid & g) {return std::find(v.begin(), v.end(), g) != v.end();}
static bool enabled(Part & p, int i, const Op & o)
{
  if (p.gone) {return false;}
  if (o.k == LEAVE) {return true;}
  MNode * n = find(p, o.n);
  if (o.k == ADD_NODE) {return !n;}
  if (!n) {return false;}
  if (o.k == REM_NODE) {return n->r.empty() && n->w.empty();}   // a node is destroyed after its endpoints
  if (o.k % 2) {return (!hasw(o.k) || has(n->w, wgid(i, o.e))) && (!hasr(o.k) || has(n->r, rgid(i, o.e))) && (!hasw(o.k) || p.w[wgid(i, o.e)].topic == wtopic(o.k - 1)) && (!hasr(o.k) || p.r[rgid(i, o.e)].topic == rtopic(o.k - 1));}
  return (!hasw(o.k) || !p.w.count(wgid(i, o.e))) && (!hasr(o.k) || !p.r.count(rgid(i, o.e)));
}
static void model(Part & p, int i, const Op & o)
{
  if (o.k == LEAVE) {
    if (o.n) {p.items.push_back({3, false, 0, nullptr});}
    for (auto & e : p.w) {p.items.push_back({2, false, e.first[14], nullptr});}
    for (auto & e : p.r) {p.items.push_back({2, true, e.first[14], nullptr});}
    if (!o.n) {p.items.push_back({3, false, 0, nullptr});}
    p.gone = true; p.nodes.clear(); p.w.clear(); p.r.clear(); return;
  }
  bool add = o.k % 2 == 0; MNode * n = find(p, o.n); Gid w = wgid(i, o.e), r = rgid(i, o.e);
  auto ent = [&](bool reader, bool there) {
      const char * t = reader ? rtopic(o.k & ~1) : wtopic(o.k & ~1); auto & m = reader ? p.r : p.w; const Gid & g = reader ? r : w;
      p.items.push_back({there ? 1 : 2, reader, g[14], t}); if (there) {m[g] = entity(i, reader, t);} else {m.erase(g);}
    };
  if (hasw(o.k)) {ent(false, add);}
  if (hasr(o.k)) {ent(true, add);}
  if (add && o.f) {if (hasw(o.k)) {ent(false, false);} if (hasr(o.k)) {ent(true, false);} return;}   // what was created is destroyed again
  auto del = [](std::vector<Gid> & v, const Gid & g) {v.erase(std::find(v.begin(), v.end(), g));};
  if (o.k == ADD_NODE) {p.nodes.push_back(gm::mknode(nodename(o.n).ns, nodename(o.n).name));} else if (o.k == REM_NODE) {p.nodes.erase(p.nodes.begin() + (n - p.nodes.data()));} else {
    if (hasw(o.k)) {if (add) {n->w.push_back(w);} else {del(n->w, w);}}
    if (hasr(o.k)) {if (add) {n->r.push_back(r);} else {del(n->r, r);}}
  }
  if (!o.f) {p.said = p.nodes; p.announcements++;}
}

// events: at participant p: 0 next local operation, 1 next discovery item from q, 2 announcement k of q (those before it are skipped), 3 loses q
static int ev(int p, int t, int q, int k) {return p + 10 * t + 100 * q + 1000 * k;}
// the abstract state of an execution
struct Sys
{
  int N; std::vector<std::vector<Op>> script; std::vector<Part> part; std::vector<size_t> pc;
  std::vector<std::vector<size_t>> got; std::vector<std::vector<int>> heard;   // [at][from]: items delivered, last announcement delivered
  int losses = 0; std::map<std::pair<int, int>, std::vector<Item>> again; std::map<std::pair<int, int>, size_t> off;   // after a loss: what is discovered again, before items[off...]
  size_t total(int at, int q) const {auto i = again.find({at, q}); return i == again.end() ? part[q].items.size() : i->second.size() + part[q].items.size() - off.at({at, q});}
  const Item & item(int at, int q, size_t n) const
  {
    auto i = again.find({at, q}); if (i == again.end()) {return part[q].items.at(n);}
    return n < i->second.size() ? i->second[n] : part[q].items.at(off.at({at, q}) + n - i->second.size());
  }
  Sys(int n, int base, const std::vector<std::vector<Op>> & s) : N(n), script(s), part(n), pc(n, 0), got(n, std::vector<size_t>(n, 0)), heard(n, std::vector<int>(n, 0))
  {
    for (int i = 0; i < N; ++i) {
      part[i].items.push_back({0, false, 0, nullptr});
      for (auto & o : base_ops(base)) {model(part[i], i, o);}
    }
    for (int i = 0; i < N; ++i) {for (int j = 0; j < N; ++j) {if (base && i != j) {got[i][j] = part[j].items.size(); heard[i][j] = part[j].announcements;}}}
  }
  static std::vector<Op> base_ops(int base)
  {
    if (!base) {return {};}
    return {{ADD_NODE, 0, 0, 0}, {ADD_PUB, 0, 0, 0}, {ADD_SUB, 0, 1, 0}};
  }
  bool farewell(int at, int q) const {for (size_t i = 0; i < got[at][q]; ++i) {if (item(at, q, i).what == 3) {return true;}} return false;}
  std::vector<int> events()
  {
    std::vector<int> v;
    for (int p = 0; p < N; ++p) {
      if (part[p].gone) {continue;}   // what arrives at a participant that left does not matter
      if (pc[p] < script[p].size()) {v.push_back(ev(p, 0, 0, 0));}
      for (int q = 0; q < N; ++q) {
        if (q == p) {continue;}
        bool all = got[p][q] == total(p, q);
        if (!all) {v.push_back(ev(p, 1, q, 0));}
        if (part[q].gone && (all || farewell(p, q))) {continue;}   // its announcements are lost with it
        if (losses && got[p][q] && !part[q].gone) {v.push_back(ev(p, 3, q, 0));}
        for (int k = heard[p][q] + 1; k <= part[q].announcements; ++k) {v.push_back(ev(p, 2, q, k));}
      }
    }
    return v;
  }
  void step(int e)
  {
    int p = e % 10, t = e / 10 % 10, q = e / 100 % 10, k = e / 1000;
    if (t == 0) {model(part[p], p, script[p][pc[p]++]);} else if (t == 1) {got[p][q]++;} else if (t == 2) {heard[p][q] = k;} else {
      auto & a = again[{p, q}]; a.clear(); a.push_back({0, false, 0, nullptr}); got[p][q] = 0; off[{p, q}] = part[q].items.size(); losses--;
      for (auto & e : part[q].w) {a.push_back({1, false, e.first[14], lasting(e.second.topic)});}
      for (auto & e : part[q].r) {a.push_back({1, true, e.first[14], lasting(e.second.topic)});}
      heard[p][q] = std::max(0, part[q].announcements - 1);
    }
  }
};
static const gm::Pools & pools()
{
  static gm::Pools P = [] {
      gm::Pools p = gm::default_pools(); p.qtopic = {"rt/chat", "rq/addRequest", "rr/addReply", "rt/cha"};
      p.qnode = {{"talker", "/"}, {"talker", "/ns"}, {"listener", "/"}, {"", ""}}; return p;
    }();
  return P;
}

struct Node   // a participant for real
{
  Context cx; rmw_publisher_t pub; int ret = RMW_RET_OK; std::vector<Msg> sent; std::vector<size_t> last;   // last: how many messages had been sent after each announcing operation
  explicit Node(int i)
  {
    memset(&pub, 0, sizeof pub); cx.gid = gm::to_rmw(gm::ddsgid(i, -1)); cx.pub = &pub; cx.sub = nullptr;
    cx.publish_callback = [this](const rmw_publisher_t *, const void * m) -> rmw_ret_t {if (ret == RMW_RET_OK) {sent.push_back(*static_cast<const Msg *>(m));} return ret;};
    cx.graph_cache.add_participant(cx.gid, enclave(i));
  }
};
static void discover(rmw_dds_common::GraphCache & g, int q, const Item & it)
{
  Gid eg = gm::ddsgid(q, 0); eg[14] = static_cast<uint8_t>(it.e); if (it.reader) {eg[15] = 0x04;}
  auto part = gm::to_rmw(gm::ddsgid(q, -1), "other");
  switch (it.what) {
    case 0: g.add_participant(part, enclave(q)); break;
    case 1: {auto x = entity(q, it.reader, it.topic); (void)g.add_entity(gm::to_rmw(eg), x.topic, x.type, x.hash, part, x.qos, it.reader); break;}
    case 2: (void)g.remove_entity(gm::to_rmw(eg), it.reader); break;
    default: (void)g.remove_participant(part);
  }
}
static rmw_ret_t local(Node & x, int i, const Op & o)
{
  auto n = nodename(o.n); rmw_gid_t w = gm::to_rmw(wgid(i, o.e)), r = gm::to_rmw(rgid(i, o.e)); bool add = o.k % 2 == 0; auto & g = x.cx.graph_cache; auto & c = x.cx;
  auto ent = [&](bool there) {
      for (int k = 0; k < 2; ++k) {
        if (!(k ? hasr(o.k) : hasw(o.k))) {continue;}
        auto m = entity(i, k, k ? rtopic(o.k & ~1) : wtopic(o.k & ~1));
        if (there) {(void)g.add_entity(k ? r : w, m.topic, m.type, m.hash, c.gid, m.qos, k);} else {(void)g.remove_entity(k ? r : w, k);}
      }
    };
  x.ret = o.f ? RMW_RET_ERROR : RMW_RET_OK; rmw_ret_t res = RMW_RET_OK;
  if (add) {ent(true);}
  switch (o.k) {
    case ADD_NODE: res = c.add_node_graph(n.name, n.ns); break;
    case REM_NODE: res = c.remove_node_graph(n.name, n.ns); break;
    case ADD_PUB: res = c.add_publisher_graph(w, n.name, n.ns); break;
    case REM_PUB: res = c.remove_publisher_graph(w, n.name, n.ns); break;
    case ADD_SUB: res = c.add_subscriber_graph(r, n.name, n.ns); break;
    case REM_SUB: res = c.remove_subscriber_graph(r, n.name, n.ns); break;
    case ADD_CLI: res = c.add_client_graph(w, r, n.name, n.ns); break;
    case REM_CLI: res = c.remove_client_graph(w, r, n.name, n.ns); break;
    case ADD_SRV: res = c.add_service_graph(r, w, n.name, n.ns); break;
    case REM_SRV: res = c.remove_service_graph(r, w, n.name, n.ns); break;
    default: break;
  }
  if (add ? res != RMW_RET_OK : true) {ent(false);}
  if (!o.f) {x.last.push_back(x.sent.size());}
  return res;
}
// the graph that participant `at` (-1: one that hears only of what there is) must see
static gm::Model truth(const Sys & s, int at)
{
  gm::Model m;
  for (int q = 0; q < s.N; ++q) {
    const Part & p = s.part[q]; if (p.gone) {continue;}
    m.p[gm::ddsgid(q, -1)].enclave = enclave(q); m.p[gm::ddsgid(q, -1)].nodes = q == at ? p.nodes : p.said;
    for (auto & e : p.w) {m.w[e.first] = e.second;}
    for (auto & e : p.r) {m.r[e.first] = e.second;}
  }
  return m;
}

// case: mode = base, v = {N, then per participant the number of its operations and these, then the events}
static std::vector<std::vector<Op>> scripts(const Case & c, size_t & pos)
{
  std::vector<std::vector<Op>> s; pos = 1;
  for (int i = 0; i < c.v[0]; ++i) {
    std::vector<Op> o; int n = c.v.at(pos++); for (int j = 0; j < n; ++j) {o.push_back(dec(c.v.at(pos++)));} s.push_back(o);
  }
  return s;
}
static void exec(Ctx & x, const Case & c)
{
  size_t pos; auto sc = scripts(c, pos); int N = c.v[0]; Sys s(N, c.mode, sc); std::vector<std::unique_ptr<Node>> node;
  for (int i = 0; i < N; ++i) {node.emplace_back(new Node(i)); for (auto & o : Sys::base_ops(c.mode)) {(void)local(*node[i], i, o);}}
  if (c.mode) {
    for (int i = 0; i < N; ++i) {for (int q = 0; q < N; ++q) {
        if (q == i) {continue;}
        for (auto & it : s.part[q].items) {discover(node[i]->cx.graph_cache, q, it);}
        if (!node[q]->sent.empty()) {node[i]->cx.graph_cache.update_participant_entities(node[q]->sent.back());}
      }}
  }
  for (; pos < c.v.size(); ++pos) {
    int e = c.v[pos], p = e % 10, t = e / 10 % 10, q = e / 100 % 10, k = e / 1000; x.transitions++;
    if (t == 0) {
      const Op & o = sc[p].at(s.pc[p]);
      if (o.k != LEAVE && (local(*node[p], p, o) == RMW_RET_OK) != (o.f == 0)) {x.fail(opstr(o) + " has the wrong outcome"); return;}
    } else if (t == 1) {discover(node[p]->cx.graph_cache, q, s.item(p, q, s.got[p][q]));} else if (t == 2) {
      size_t l = node[q]->last.at(static_cast<size_t>(k) - 1); if (l) {node[p]->cx.graph_cache.update_participant_entities(node[q]->sent[l - 1]);}
    } else {
      std::set<std::pair<bool, int>> known; auto & g = node[p]->cx.graph_cache;
      for (size_t i = 0; i < s.got[p][q]; ++i) {auto & it = s.item(p, q, i); if (it.what == 1) {known.insert({it.reader, it.e});} else if (it.what == 2) {known.erase({it.reader, it.e});}}
      bool first = (c.v.size() + pos) % 2; if (first) {discover(g, q, {3, false, 0, nullptr});}
      for (auto & z : known) {discover(g, q, {2, z.first, z.second, nullptr});}
      if (!first) {discover(g, q, {3, false, 0, nullptr});}
    }
    s.step(e);
  }
  uint64_t h = 7; const unsigned mask = gm::O_ALL & ~gm::O_PRINT;
  for (int i = 0; i < N; ++i) {
    if (s.part[i].gone) {continue;}
    gm::Observer ob(pools(), mask); ob.others = false; auto d = ob.compare(node[i]->cx.graph_cache, truth(s, i));
    if (!d.empty()) {x.fail(fmt("participant %d: ", i) + d); return;}
    h = h * 31 + ob.h;
  }
  // a late joiner: told what there is, in an order that depends on the case
  rmw_dds_common::GraphCache late; bool first = c.v.size() % 2;
  static std::unordered_set<uint64_t> judged;   // equal messages, equal truth: equal
  {
    std::string key = fmt("%d%d", c.mode, first); auto t = truth(s, -1); key += t.key();
    for (int q = 0; q < N; ++q) {if (!s.part[q].gone && !node[q]->sent.empty()) {key += gm::msg_text(node[q]->sent.back());}}
    if (!judged.insert(hx::hash_str(key)).second) {x.outcome(h); x.traces++; return;}
  }
  for (int turn = 0; turn < 2; ++turn) {
    for (int q = 0; q < N; ++q) {
      if (s.part[q].gone) {continue;}
      if ((turn == 0) == first) {if (!node[q]->sent.empty()) {late.update_participant_entities(node[q]->sent.back());}} else {
        discover(late, q, {0, false, 0, nullptr});
        for (auto & e : s.part[q].w) {discover(late, q, {1, false, e.first[14], e.second.topic.c_str()});}
        for (auto & e : s.part[q].r) {discover(late, q, {1, true, e.first[14], e.second.topic.c_str()});}
      }
    }
  }
  gm::Observer ob(pools(), mask); auto d = ob.compare(late, truth(s, -1));
  if (!d.empty()) {x.fail("late joiner: " + d); return;}
  x.outcome(h); x.traces++;
}
static std::string describe(const Case & c)
{
  size_t pos; auto sc = scripts(c, pos); std::string s = c.mode ? "established participants; " : "new participants; ";
  Sys y(c.v[0], c.mode, sc);
  for (; pos < c.v.size(); ++pos) {
    int e = c.v[pos], p = e % 10, t = e / 10 % 10, q = e / 100 % 10, k = e / 1000;
    if (t == 0) {s += fmt("%d: ", p) + opstr(sc[p][y.pc[p]]) + "; ";} else if (t == 1) {
      auto & it = y.item(p, q, y.got[p][q]); static const char * W[] = {"participant", "new endpoint", "endpoint gone", "participant gone"};
      s += fmt("%d discovers %s of %d; ", p, W[it.what], q);
    } else if (t == 3) {s += fmt("%d loses %d; ", p, q);} else {s += fmt("%d hears announcement %d of %d; ", p, k, q);}
    y.step(e);
  }
  return s;
}

static void dfs(Ctx & x, const Case & head, const Sys & s, std::vector<int> & trace, const std::vector<int> & sleep)
{
  if (x.stop() || (trace.size() == 4 && !x.mine())) {return;}
  Sys here = s; auto en = here.events();
  if (en.empty()) {
    if (trace.size() >= 4 || x.mine()) {Case c = head; c.v.insert(c.v.end(), trace.begin(), trace.end()); x.run(c);}
    return;
  }
  std::vector<int> asleep = sleep;
  for (int e : en) {
    if (std::find(asleep.begin(), asleep.end(), e) != asleep.end()) {continue;}
    std::vector<int> next; for (int a : asleep) {
      auto lost = [](int u) {return u / 10 % 10 == 3 ? u / 100 % 10 : -1;};   // what is discovered again depends on the lost one's state
      if (a % 10 != e % 10 && lost(a) != e % 10 && lost(e) != a % 10) {next.push_back(a);}
    }
    Sys child = here; child.step(e); trace.push_back(e); dfs(x, head, child, trace, next); trace.pop_back();
    asleep.push_back(e);
  }
}
static void explore(Ctx & x, int base, const std::vector<std::vector<Op>> & sc, int losses = 0)
{
  Case head; head.mode = base; head.v.push_back(static_cast<int>(sc.size()));
  for (auto & s : sc) {head.v.push_back(static_cast<int>(s.size())); for (auto & o : s) {head.v.push_back(enc(o));}}
  std::vector<int> trace; if (x.shard == 0) {x.states++;} Sys s(static_cast<int>(sc.size()), base, sc); s.losses = losses; dfs(x, head, s, trace, {});
}
// all scripts of exactly n operations of an alphabet
static std::vector<std::vector<Op>> all_scripts(int i, int base, const std::vector<Op> & al, int n)
{
  std::vector<std::vector<Op>> out; std::vector<Op> cur; Part p0; for (auto & o : Sys::base_ops(base)) {model(p0, i, o);}
  std::function<void(const Part &)> rec = [&](const Part & p) {
      if (static_cast<int>(cur.size()) == n) {out.push_back(cur); return;}
      for (auto & o : al) {Part q = p; if (!enabled(q, i, o)) {continue;} model(q, i, o); cur.push_back(o); rec(q); cur.pop_back();}
    };
  rec(p0); return out;
}
static void enumerate(Ctx & x)
{
  bool th = x.thorough, asan = x.variant == "asan";
  const std::vector<Op> fresh = {{ADD_NODE, 0, 0, 0}, {ADD_NODE, 0, 0, 1}, {ADD_NODE, 1, 0, 0}, {ADD_PUB, 0, 0, 0}, {ADD_PUB, 0, 0, 1}, {ADD_SUB, 0, 1, 0}, {ADD_SRV, 0, 2, 0}, {REM_PUB, 0, 0, 0}, {REM_NODE, 0, 0, 0}, {REM_NODE, 0, 0, 1}, {LEAVE, 0, 0, 0}, {LEAVE, 1, 0, 0}};
  const std::vector<Op> later = {{ADD_NODE, 1, 0, 0}, {ADD_NODE, 1, 0, 1}, {ADD_PUB, 0, 2, 0}, {ADD_PUB, 1, 2, 0}, {ADD_SUB, 0, 3, 1}, {REM_PUB, 0, 0, 0}, {REM_PUB, 0, 0, 1}, {REM_SUB, 0, 1, 0}, {ADD_CLI, 0, 3, 0}, {ADD_SRV, 0, 3, 0}, {REM_CLI, 0, 3, 0}, {REM_NODE, 0, 0, 0}, {LEAVE, 0, 0, 0}, {LEAVE, 1, 0, 0}};
  for (int base = 0; base < 2; ++base) {
    auto & al = base ? later : fresh;
    auto S = [&](int i, int n) {return all_scripts(i, base, al, n);};
    auto pair = [&](int n, int m, int losses = 0) {for (auto & a : S(0, n)) {for (auto & b : S(1, m)) {if (x.stop()) {return;} explore(x, base, {a, b}, losses);}}};
    pair(0, 1); pair(1, 0); pair(1, 1); pair(2, 0); pair(0, 2);
    pair(0, 0, 1); pair(0, 1, 1); pair(1, 0, 1);
    if (asan && !th) {continue;}
    pair(3, 0); pair(0, 3); pair(2, 1); pair(1, 2);
    pair(1, 1, 1); pair(2, 0, 1); pair(0, 2, 1); pair(1, 0, 2);
    if (asan) {continue;}
    if (th || !base) {pair(2, 2);}
    if (th) {pair(4, 0); pair(3, 1); pair(1, 3);}
    // three participants
    for (auto & a : S(0, 1)) {for (auto & b : S(1, 1)) {for (auto & d : S(2, th ? 1 : 0)) {if (x.stop()) {return;} explore(x, base, {a, b, d});}}}
  }
}
int main(int argc, char ** argv)
{
  return hx::main_impl(argc, argv, [](Ctx & x, hx::Prop & p) {
    if (x.prop != "C31") {return false;}
    p.exec = exec; p.enumerate = enumerate; p.describe = describe; return true;
  });
}
