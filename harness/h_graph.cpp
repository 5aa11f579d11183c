// Explicit-state and all-histories exploration of the real GraphCache against the reference model:
// C01 C02 C03 C04 C05 C06 C07 C08 C09 C26.
#include <deque>
#include <memory>
#include <new>
#include <unordered_map>

#include "clock.hpp"
#include "graph_model.hpp"
#include "rcutils/strdup.h"
#include "rmw/error_handling.h"
#include "rmw_dds_common/context.hpp"

using namespace gm;
using hx::Case;
using hx::Ctx;
using hx::fmt;

// ------------------------------------------------------------------ failing operator new (C08)
static thread_local long g_new_count = 0, g_new_fail = -1;
static thread_local bool g_new_armed = false;
static thread_local long g_new_live = 0;
static thread_local bool g_new_from = false, g_new_hit = false;   // fail every allocation from there on; an allocation failed
static void * new_impl(size_t n)
{
  if (g_new_armed) {long k = g_new_count++; if (g_new_fail >= 0 && (k == g_new_fail || (g_new_from && k > g_new_fail))) {g_new_hit = true; throw std::bad_alloc();}}
  void * p = malloc(n ? n : 1);
  if (!p) {throw std::bad_alloc();}
  g_new_live++;
  return p;
}
void * operator new(size_t n) {return new_impl(n);}
void * operator new[](size_t n) {return new_impl(n);}
void operator delete(void * p) noexcept {if (p) {g_new_live--;} free(p);}
void operator delete[](void * p) noexcept {if (p) {g_new_live--;} free(p);}
void operator delete(void * p, size_t) noexcept {if (p) {g_new_live--;} free(p);}
void operator delete[](void * p, size_t) noexcept {if (p) {g_new_live--;} free(p);}

// ------------------------------------------------------------------ configurations
enum Chk {CK_RET = 1, CK_PRET = 2, CK_MSG = 4, CK_CB = 8};
struct Cfg
{
  std::string name;
  Pools P;
  std::vector<Op> al;
  unsigned mask = 0, chk = 0;
  Dem dt = identity_dem, dy = identity_dem;
  int dq = 0, dt_ = 0;        // history depth quick / thorough (0: none)
  bool bfs = false;
  int node_cap = 2;           // nodes per participant in BFS/histories
  bool allow_dup = false;     // may add a node whose name exists in that participant
  bool end_only = true;       // also run the "observe only at the end" histories
  std::vector<std::vector<int>> scripts;   // explicit op sequences (sweeps)
  std::function<void(const std::function<void(const std::vector<int> &)> &)> gen;   // more of them, produced on the fly
};

static bool assoc_present(Model & m, const Pools & P, const Op & o)
{
  MNode * n = find_node(m, P.part[o.part], P.node[o.node]);
  if (!n) {return false;}
  auto & v = (o.k == AS_W || o.k == DI_W) ? n->w : n->r;
  return std::find(v.begin(), v.end(), P.gid[o.gid]) != v.end();
}
static bool op_ok(Model & m, const Cfg & c, const Op & o)
{
  if (!enabled(m, c.P, o)) {return false;}
  if (o.k == ADD_NODE) {
    auto & p = m.p[c.P.part[o.part]];
    if (static_cast<int>(p.nodes.size()) >= c.node_cap) {return false;}
    if (!c.allow_dup && find_node(m, c.P.part[o.part], c.P.node[o.node])) {return false;}
  }
  if (o.k == AS_W || o.k == AS_R) {return !assoc_present(m, c.P, o);}
  if (o.k == DI_W || o.k == DI_R) {return assoc_present(m, c.P, o);}
  return true;
}

struct Big {long * n; char pad[200] = {0}; void operator()() {++*n; pad[7]++;}};
struct Session
{
  const Cfg & c;
  GraphCache gc;
  Model m;
  int cb = 0;                  // 0 none, 1, 2: which callback is set (model)
  long n1 = 0, n2 = 0, e1 = 0, e2 = 0; uint64_t h = 0;
  std::function<void()> f1 = [this]() {n1++;}, f2 = [this]() {n2++;};   // (copied elsewhere, a Session is not)
  Observer ob;
  Session(const Cfg & cfg) : c(cfg), ob(cfg.P, cfg.mask) {ob.dt = cfg.dt; ob.dy = cfg.dy;}
  // performs the operation on both; "" or difference
  std::string step(const Op & o)
  {
    if (o.k == SET_CB) {
      // 0, 1: a temporary; 2, 3: an object that is set again and again; 4, 5: a const one; 6, 7: by reference; 8, 9: any of the callables of an array, with a large state
      switch (o.msg / 2) {
        case 0: if (o.msg == 0) {gc.set_on_change_callback([this]() {n1++;});} else {gc.set_on_change_callback([this]() {n2++;});} break;
        case 1: gc.set_on_change_callback(o.msg % 2 ? f2 : f1); break;
        case 2: {const std::function<void()> & k = o.msg % 2 ? f2 : f1; gc.set_on_change_callback(k); break;}
        case 3: gc.set_on_change_callback(std::ref(o.msg % 2 ? f2 : f1)); break;
        default: {Big b; b.n = o.msg % 2 ? &n2 : &n1; const Big & k = b; if (o.msg % 2) {gc.set_on_change_callback(b);} else {gc.set_on_change_callback(k);} break;}
      }
      cb = 1 + o.msg % 2;
    } else if (o.k == CLR_CB) {
      gc.clear_on_change_callback(); cb = 0;
    } else if (o.k == QUERY) {
      Observer q(c.P, O_ALL & ~O_PRINT); (void)q.compare(gc, m);
      std::ostringstream os; os << gc;
    } else {
      Effect e = apply_model(m, c.P, o);
      RealRet r = apply_real(gc, c.P, o);
      if (e.changed) {if (cb == 1) {e1++;} else if (cb == 2) {e2++;}}
      bool endp = o.k == ADD_W || o.k == ADD_R || o.k == REM_W || o.k == REM_R;
      if (((c.chk & CK_RET) && endp) || ((c.chk & CK_PRET) && o.k == REM_PART)) {
        if (e.ret != r.ret) {return fmt("%s returned %d instead of %d", op_str(o).c_str(), r.ret, e.ret);}
      }
      if ((c.chk & CK_MSG) && e.has_msg) {
        std::string want = gs(c.P.part[o.part]) + ":" + nodes_text(m.p[c.P.part[o.part]].nodes), got = msg_text(r.msg);
        if (want != got) {return op_str(o) + ": message expected " + want + " got " + got;}
      }
    }
    if (c.chk & CK_CB) {h = h * 1000003 + static_cast<uint64_t>(o.k) * 64 + static_cast<uint64_t>(n1) * 8 + static_cast<uint64_t>(n2) + 1;}
    if ((c.chk & CK_CB) && (n1 != e1 || n2 != e2)) {
      return fmt("after %s: change callback ran %ld/%ld times, expected %ld/%ld", op_str(o).c_str(), n1, n2, e1, e2);
    }
    return "";
  }
};

static std::vector<Cfg> g_cfg;
static int g_mode_base = 0;   // added to the mode of history cases (C06 has two kinds of cases)
static const char * S_EVERY = "observe after every operation", * S_END = "observe at the end", * S_TIME = "time passes between the operations";

static std::string describe_hist(const Case & cs)
{
  const Cfg & c = g_cfg[cs.mode / 10];
  std::string s = c.name + " (" + (cs.mode % 10 == 1 ? S_END : cs.mode % 10 > 2 ? S_TIME : S_EVERY) + "): ";
  for (int i : cs.v) {s += op_str(c.al[i]) + " ";}
  return s;
}
// run one history
static void exec_hist(Ctx & x, const Case & cs)
{
  const Cfg & c = g_cfg.at(cs.mode / 10); int how = cs.mode % 10;
  Session s(c);
  for (size_t i = 0; i < cs.v.size(); ++i) {
    if (!op_ok(s.m, c, c.al.at(cs.v[i]))) {x.fail("internal: operation not enabled"); return;}
    if (how > 2) {static const int64_t SKIP[] = {2, 3700, 40 * 86400}; g_skipped += SKIP[how - 3];}   // time passes before every operation
    std::string d = s.step(c.al[cs.v[i]]);
    if (how > 2 && i + 1 == cs.v.size()) {g_skipped += 40 * 86400;}
    x.transitions++;
    if (d.empty() && (how == 0 || i + 1 == cs.v.size() || (how >= 2 && i + 2 == cs.v.size()))) {d = s.ob.compare(s.gc, s.m);}
    if (!d.empty()) {x.fail(fmt("at step %zu: ", i + 1) + d); return;}
  }
  if (cs.v.empty()) {std::string d = s.ob.compare(s.gc, s.m); if (!d.empty()) {x.fail(d);}}
  x.outcome(s.ob.h ^ s.h);
  x.traces++;
}
static void enum_hist_rec(Ctx & x, const Cfg & c, int ci, int how, int depth, std::vector<int> & pre, const Model & m)
{
  if (x.stop()) {return;}
  bool leaf = static_cast<int>(pre.size()) == depth;
  if (leaf || (how == 1 && !pre.empty())) {
    if (x.mine()) {Case cs; cs.mode = g_mode_base + ci * 10 + how; cs.v = pre; x.run(cs);}
  }
  if (leaf) {return;}
  bool any = false;
  for (size_t i = 0; i < c.al.size(); ++i) {
    Model n = m;
    if (!op_ok(n, c, c.al[i])) {continue;}
    any = true;
    apply_model(n, c.P, c.al[i]);
    pre.push_back(static_cast<int>(i)); enum_hist_rec(x, c, ci, how, depth, pre, n); pre.pop_back();
  }
  if (!any && how == 0 && x.mine()) {Case cs; cs.mode = g_mode_base + ci * 10; cs.v = pre; x.run(cs);}
}
static void enum_bfs(Ctx & x, const Cfg & c, int ci, size_t max_states)
{
  struct St {Model m; int cb; std::vector<int> h;};
  std::unordered_map<std::string, int> seen; std::deque<St> q;
  auto key = [](const St & s) {return s.m.key() + fmt("#%d", s.cb);};
  St init; init.cb = 0; seen[key(init)] = 1; q.push_back(init);
  uint64_t nst = 1; bool trunc = false;
  while (!q.empty() && !x.stop()) {
    St s = q.front(); q.pop_front();
    for (size_t i = 0; i < c.al.size() && !x.stop(); ++i) {
      St n = s;
      if (!op_ok(n.m, c, c.al[i])) {continue;}
      apply_model(n.m, c.P, c.al[i]);
      if (c.al[i].k == SET_CB) {n.cb = 1 + c.al[i].msg % 2;} else if (c.al[i].k == CLR_CB) {n.cb = 0;}
      n.h.push_back(static_cast<int>(i));
      for (int how = 3; how < 6; ++how) {if ((how >= 4 || x.thorough) && x.mine()) {Case cs; cs.mode = g_mode_base + ci * 10 + how; cs.v = n.h; x.run(cs);}}
      if (x.mine()) {Case cs; cs.mode = g_mode_base + ci * 10 + 2; cs.v = n.h; x.run(cs); x.count("transitions of the model state graph checked", 1);}
      auto k = key(n);
      if (!seen.count(k)) {
        if (seen.size() >= max_states) {trunc = true; continue;}
        seen[k] = 1; nst++; q.push_back(n);
      }
    }
  }
  if (x.shard == 0) {x.states += nst; x.count("bfs states: " + c.name, nst); if (trunc) {x.count("bfs truncated: " + c.name, 1);}}
}
static void enum_cfgs(Ctx & x)
{
  bool asan = x.variant == "asan";
  for (size_t ci = 0; ci < g_cfg.size() && !x.stop(); ++ci) {
    Cfg & c = g_cfg[ci];
    if (x.mine()) {Case cs; cs.mode = g_mode_base + static_cast<int>(ci) * 10; x.run(cs);}
    for (auto & s : c.scripts) {
      if (x.stop()) {break;}
      for (int how = 0; how < 2; ++how) {if (x.mine()) {Case cs; cs.mode = g_mode_base + static_cast<int>(ci) * 10 + (how ? 1 : (s.size() > 12 ? 2 : 0)); cs.v = s; x.run(cs);}}
    }
    if (c.gen) {
      c.gen([&](const std::vector<int> & s) {
          for (int how = 0; how < 2 && !x.stop(); ++how) {if (x.mine()) {Case cs; cs.mode = g_mode_base + static_cast<int>(ci) * 10 + (how ? 1 : 2); cs.v = s; x.run(cs);}}
        });
    }
    if (c.bfs) {enum_bfs(x, c, static_cast<int>(ci), x.thorough ? 60000 : (asan ? 400 : 4000));}
    int d = x.thorough ? c.dt_ : c.dq; if (asan) {d--;}
    if (d > 0) {
      std::vector<int> pre; Model m;
      enum_hist_rec(x, c, static_cast<int>(ci), 0, d, pre, m);
      if (c.end_only) {enum_hist_rec(x, c, static_cast<int>(ci), 1, d, pre, m);}
    }
  }
}

// ------------------------------------------------------------------ message pools
// m0: n0{w g0 g1, r g0}   m1: n0{} n1{w g0, r g1}   m2: n1{r g0 g1}   m3: no nodes   m4: n0{w g0,r g0} n1{w g1}
static void std_msgs(Pools & P)
{
  auto N = [&](int i, std::vector<Gid> r, std::vector<Gid> w) {return mknode(P.node[i].ns, P.node[i].name, r, w);};
  auto & g = P.gid;
  P.msg.clear();
  P.msg.push_back({{N(0, {g[0]}, {g[0], g[1]})}});
  P.msg.push_back({{N(0, {}, {}), N(1, {g[1]}, {g[0]})}});
  P.msg.push_back({{N(1, {g[0], g[1]}, {})}});
  P.msg.push_back({{}});
  P.msg.push_back({{N(0, {g[0]}, {g[0]}), N(1, {}, {g[1]})}});
}
static const uint8_t BYTE_PAIRS[][2] = {{0x00, 0x01}, {0x7f, 0x80}, {0x00, 0xff}, {0x80, 0xff}, {0x00, 0x80}};
// pools in which endpoint gids (and participant gids) differ in exactly one byte
static Pools byte_pools(int pos, int pair)
{
  Pools P = default_pools();
  for (int i = 0; i < 2; ++i) {
    Gid g; g.fill(0); if (pair % 2) {g.fill(0xc3);} g[pos] = BYTE_PAIRS[pair][i]; P.gid[i] = g;
    Gid p; p.fill(0); if (pair % 2) {p.fill(0x5a);} p[pos] = BYTE_PAIRS[pair][i]; P.part[i] = p;
  }
  return P;
}
static std::vector<std::string> odd_names()
{
  return {"", "a", "ab", "A", "a ", "/a", std::string(15, 'x'), std::string(16, 'x'), std::string(300, 'y'), std::string(299, 'y') + "z",
    "rt/\xc3\xa9", "a'b", "%s%n"};
}

// every announcement with up to maxn of the first two nodes (in every order, also twice the same), each with every subset of the
// first rg readers and the first wg writers
static std::vector<std::vector<MNode>> all_msgs(const Pools & P, int rg, int wg, int maxn)
{
  std::vector<MNode> one; std::vector<std::vector<MNode>> out{{}};
  for (int n = 0; n < 2; ++n) {
    for (int a = 0; a < (1 << rg); ++a) {
      for (int b = 0; b < (1 << wg); ++b) {
        std::vector<Gid> r, w;
        for (int i = 0; i < rg; ++i) {if (a >> i & 1) {r.push_back(P.gid[i]);}}
        for (int i = 0; i < wg; ++i) {if (b >> i & 1) {w.push_back(P.gid[i]);}}
        one.push_back(mknode(P.node[n].ns, P.node[n].name, r, w));
      }
    }
  }
  for (auto & m : one) {out.push_back({m});}
  if (maxn > 1) {for (auto & m : one) {for (auto & k : one) {out.push_back({m, k});}}}
  return out;
}
// An announcement replaces the one before completely: all ordered pairs of announcements of one participant and all triples of the
// one-node ones (so also the same one again, an older one again, and a participant that left in between).
// nodups: leave out announcements in which two nodes have the same name (where the property does not say which one counts).
static void cfg_replace(bool th, unsigned mask, unsigned chk, bool nodups, const std::vector<Op> & before, bool set_cb = false)
{
  Cfg c; c.name = "announcements replacing each other"; c.P = default_pools(); auto & P = c.P; c.mask = mask; c.chk = chk; c.node_cap = 9; P.qtopic = {"rt/chat"}; P.qnode = {{"talker", "/"}, {"talker", "/ns"}};
  int rg = th ? 2 : 1, wg = 2;
  auto all = all_msgs(P, rg, wg, 2); P.msg.clear(); int one = 0;
  for (auto & m : all) {
    if (nodups && m.size() == 2 && m[0].name == m[1].name && m[0].ns == m[1].ns) {continue;}
    if (m.size() < 2) {one++;}
    P.msg.push_back({m});
  }
  if (set_cb) {Op o; o.k = SET_CB; o.msg = 0; c.al.push_back(o);}
  for (auto & o : before) {c.al.push_back(o);}
  std::vector<int> pre; for (size_t i = 0; i < c.al.size(); ++i) {pre.push_back(static_cast<int>(i));}
  int rem = static_cast<int>(c.al.size()); c.al.push_back(op_rempart(0));
  int base = static_cast<int>(c.al.size()), n = static_cast<int>(P.msg.size());
  for (int i = 0; i < n; ++i) {c.al.push_back(op_update(0, i));}
  c.gen = [pre, rem, base, n, one](const std::function<void(const std::vector<int> &)> & f) {
      for (int a = 0; a < n; ++a) {
        for (int b = 0; b < n; ++b) {auto s = pre; s.push_back(base + a); s.push_back(base + b); f(s);}
      }
      for (int a = 0; a < one; ++a) {
        for (int b = 0; b < one; ++b) {
          auto s = pre; s.push_back(base + a); s.push_back(rem); s.push_back(base + b); f(s);
          for (int d = 0; d < one; ++d) {auto q = pre; q.push_back(base + a); q.push_back(base + b); q.push_back(base + d); f(q);}
        }
      }
    };
  g_cfg.push_back(c);
}
// populations of every size around the powers of two: kinds 1 endpoints of one topic, 2 announcements with many nodes or gids, 4 local nodes and
// associations, 8 participants
static void cfg_scale(bool th, int kinds, unsigned mask, unsigned chk, bool set_cb = false)
{
  std::vector<int> sizes; for (int p = 32; p <= (th ? 1024 : 256); p *= 2) {for (int d = -1; d <= 1; ++d) {sizes.push_back(p + d);}} if (!th) {sizes.push_back(1025);}
  const int N = 1026, M = 258;
  Cfg c; c.name = "populations"; c.P = default_pools(); auto & P = c.P; c.mask = mask; c.chk = chk; c.node_cap = 100000; P.msg.clear(); P.gid.clear(); P.node.clear(); P.part.clear();
  for (int i = 0; i < N; ++i) {Gid g = mkgid(0x80, static_cast<uint8_t>(i * 7)); g[3] = static_cast<uint8_t>(i); g[9] = static_cast<uint8_t>(i >> 8); P.gid.push_back(g);}
  for (int i = 0; i < M; ++i) {Gid g = mkgid(0x10, static_cast<uint8_t>(i * 5)); g[2] = static_cast<uint8_t>(i); g[11] = static_cast<uint8_t>(i >> 8); P.part.push_back(g);}
  for (int i = 0; i < N; ++i) {P.node.push_back({fmt("n%d", i), i % 2 ? "/" : "/ns"});}
  P.qtopic = {"rt/chat"}; P.qnode = {P.node[0], P.node[30], P.node[64], P.node[255]};
  std::vector<int> pre;
  if (set_cb) {Op o; o.k = SET_CB; o.msg = 0; pre.push_back(0); c.al.push_back(o);}
  auto op = [&c](const Op & o) {c.al.push_back(o); return static_cast<int>(c.al.size()) - 1;};
  auto add_all = [&]() {
      std::vector<int> ids; for (int i = 0; i < N; ++i) {ids.push_back(op(op_add(false, i, i % 5 == 4, i % 3, 0, 0, i & 1, 0))); op(op_rem(false, i)); op(op_add(true, i, i % 5 == 4, i % 3, 0, 0, i & 1, 0)); op(op_rem(true, i));}
      return ids;
    };
  std::vector<int> e = add_all();   // + 1 remove, + 2 add as reader, + 3 remove the reader
  if (kinds & 1) {
    for (int n : sizes) {
      for (int r = 0; r < 2; ++r) {
        auto s = pre; for (int i = 0; i < n; ++i) {s.push_back(e[i] + 2 * r);}
        s.push_back(e[0] + 2 - 2 * r); c.scripts.push_back(s);
        for (int k : {0, n / 2, n - 1}) {auto t = s; t.push_back(e[k] + 2 * r + 1); c.scripts.push_back(t);}
      }
    }
  }
  if (kinds & 2) {
    int p0 = op(op_part(0, 0)), rem = op(op_rempart(0));
    MsgSpec small; small.nodes = {mknode(P.node[0].ns, P.node[0].name, {P.gid[1]}, {P.gid[2]})}; P.msg.push_back(small); int us = op(op_update(0, 0));
    for (int n : sizes) {
      for (int kind = 0; kind < 3; ++kind) {
        MsgSpec m;
        if (kind == 0) {for (int i = 0; i < n; ++i) {m.nodes.push_back(mknode(P.node[i].ns, P.node[i].name, {P.gid[i]}, {P.gid[(i + 1) % n]}));}} else {
          std::vector<Gid> a, b; for (int i = 0; i < n; ++i) {a.push_back(P.gid[i]);} b.push_back(P.gid[n - 1]);
          m.nodes = {mknode("/", "other", {}, {}), mknode(P.node[0].ns, P.node[0].name, kind == 1 ? a : b, kind == 1 ? b : a)};
        }
        P.msg.push_back(m); int u = op(op_update(0, static_cast<int>(P.msg.size()) - 1));
        auto s = pre; s.push_back(p0); for (int i : {0, n / 2, n - 1}) {s.push_back(e[i]); s.push_back(e[i] + 2);}
        s.push_back(u); c.scripts.push_back(s);
        auto t = s; t.push_back(us); c.scripts.push_back(t); t.push_back(u); c.scripts.push_back(t); s.push_back(rem); c.scripts.push_back(s);
      }
    }
  }
  if (kinds & 4) {
    int p0 = op(op_part(0, 0)); std::vector<int> nd, as;
    for (int i = 0; i < M; ++i) {nd.push_back(op(op_node(ADD_NODE, 0, i))); op(op_node(REM_NODE, 0, i)); as.push_back(op(op_assoc(AS_W, i, 0, 0))); op(op_assoc(DI_W, i, 0, 0)); op(op_assoc(AS_R, i, 0, 0)); op(op_assoc(DI_R, i, 0, 0));}
    for (int n : sizes) {
      if (n > M) {continue;}
      auto s = pre; s.push_back(p0); for (int i : {0, n / 2, n - 1}) {s.push_back(e[i]); s.push_back(e[i] + 2);}
      auto base = s;
      for (int i = 0; i < n; ++i) {s.push_back(nd[i]);} c.scripts.push_back(s);
      for (int k : {0, n / 2, n - 1}) {auto t = s; t.push_back(nd[k] + 1); c.scripts.push_back(t);}
      for (int r = 0; r < 2; ++r) {
        auto t = base; t.push_back(nd[0]); for (int i = 0; i < n; ++i) {t.push_back(as[i] + 2 * r);} c.scripts.push_back(t);
        for (int k : {0, n / 2, n - 1}) {auto q = t; q.push_back(as[k] + 2 * r + 1); c.scripts.push_back(q);}
      }
    }
  }
  if (kinds & 8) {
    std::vector<int> ps; for (int i = 0; i < M; ++i) {
      MsgSpec m; m.nodes = {mknode(P.node[i].ns, P.node[i].name, {P.gid[i]}, {P.gid[(i + 1) % M]})}; P.msg.push_back(m);
      ps.push_back(op(op_part(i, i & 1))); op(op_update(i, static_cast<int>(P.msg.size()) - 1)); op(op_rempart(i));
    }
    for (int n : sizes) {
      if (n > M) {continue;}
      auto s = pre; for (int i = 0; i < n; ++i) {if (i % 3) {s.push_back(ps[i]);} s.push_back(ps[i] + 1);} c.scripts.push_back(s);
      for (int k : {0, n / 2, n - 1}) {auto t = s; t.push_back(ps[k] + 2); c.scripts.push_back(t);}
    }
  }
  g_cfg.push_back(c);
}
// names of every length (five names per length that differ in the first, a middle or the last character, or are one shorter), and
// names with every byte value next to ones that differ from it in one bit: topics, types, node names, namespaces and enclaves alike
static void cfg_names(bool th, unsigned mask, unsigned chk, bool bytes = true, Dem dt = identity_dem)
{
  std::vector<int> ls; for (int i = 1; i <= 300; ++i) {ls.push_back(i);} for (int p : {512, 1024, 4096, 16384, 65536}) {for (int d = -1; d <= 1; ++d) {ls.push_back(p + d);}}
  if (bytes) {for (int b = 1; b < 256; ++b) {ls.push_back(-b);}}
  for (int l : ls) {
    if (!th && mask & O_PRINT && l > 5000) {continue;}
    Cfg c; c.name = l > 0 ? fmt("names of %d characters", l) : fmt("names with the byte 0x%02x", -l); c.P = default_pools(); auto & P = c.P; c.mask = mask; c.chk = chk; c.node_cap = 1000; c.dt = dt;
    std::vector<std::string> n;
    if (l > 0) {
      std::string b; for (int i = 0; i < l; ++i) {b += static_cast<char>('a' + (i * 7 + i / 26) % 26);}
      n = {b, b, b, b, b.substr(0, b.size() - 1)}; n[1].back() ^= 1; n[2][0] ^= 2; n[3][b.size() / 2] ^= 4;
    } else {
      for (int x : {0, 0x80, 0x20, 1}) {std::string b = "ab?cd"; b[2] = static_cast<char>(-l ^ x); if (!b[2]) {b[2] = '\x7f';} n.push_back(b);} n.push_back("abcd");
    }
    P.topic = P.type = P.enclave = P.qtopic = n; P.node.clear(); P.msg.clear();
    for (int i = 0; i < 5; ++i) {P.node.push_back({n[i], n[(i + 1) % 5]});}
    for (int i = 0; i < 5; ++i) {P.node.push_back({n[i], "/"}); P.node.push_back({"/", n[i]});}
    P.qnode = P.node; P.qnode.push_back({n[1], n[0]});
    MsgSpec m; for (int i = 0; i < 5; ++i) {m.nodes.push_back(mknode(P.node[i].ns, P.node[i].name, i < 4 ? std::vector<Gid>{P.gid[i]} : std::vector<Gid>(), i > 0 ? std::vector<Gid>{P.gid[i - 1]} : std::vector<Gid>()));}
    P.msg.push_back(m); m.nodes.erase(m.nodes.begin()); P.msg.push_back(m);
    std::vector<int> a, b; auto op = [&](std::vector<int> & v, const Op & o) {c.al.push_back(o); v.push_back(static_cast<int>(c.al.size()) - 1);};
    for (int i = 0; i < 4; ++i) {op(a, op_add(false, i, i, (i + 1) % 5, 0, i & 1, 0, 0)); op(a, op_add(true, i, (i + 4) % 5, i, 0, i & 1, 0, 0));}
    b = a;
    op(a, op_update(0, 0)); op(a, op_part(0, 0)); op(a, op_part(1, 1)); op(a, op_part(2, 4)); op(a, op_update(1, 1)); op(a, op_rem(false, 1)); op(a, op_part(0, 2)); op(a, op_update(0, 1)); op(a, op_rem(true, 0)); op(a, op_rempart(1));
    op(b, op_part(0, 3)); op(b, op_part(1, 1));
    for (int i : {0, 4, 1, 5, 2, 6, 3}) {op(b, op_node(ADD_NODE, i & 1, i));}
    op(b, op_assoc(AS_W, 0, 0, 0)); op(b, op_assoc(AS_R, 0, 0, 4)); op(b, op_assoc(AS_W, 2, 0, 2)); op(b, op_assoc(AS_R, 2, 0, 2)); op(b, op_assoc(AS_W, 1, 1, 1)); op(b, op_assoc(AS_R, 3, 1, 3)); op(b, op_assoc(AS_R, 1, 1, 5));
    op(b, op_assoc(DI_W, 0, 0, 0)); op(b, op_node(REM_NODE, 0, 4)); op(b, op_assoc(AS_W, 0, 0, 0)); op(b, op_node(REM_NODE, 1, 1)); op(b, op_assoc(DI_R, 3, 1, 3));
    c.scripts = {a, b};
    g_cfg.push_back(c);
  }
}
static std::vector<Op> ep_before()
{
  return {op_add(false, 0, 0, 0, 0, 0, 0, 0), op_add(false, 1, 0, 1, 0, 0, 0, 0), op_add(true, 0, 0, 0, 0, 0, 0, 0), op_add(true, 1, 0, 1, 0, 0, 0, 0)};
}
// ------------------------------------------------------------------ C01
static void cfg_c01(bool th)
{
  cfg_scale(th, 1, O_COUNT | O_INFO, CK_RET); cfg_names(th, O_COUNT | O_INFO, CK_RET);
  {
    Cfg c; c.name = "registry state graph"; c.P = default_pools(); std_msgs(c.P); c.mask = O_COUNT | O_INFO; c.chk = CK_RET; c.bfs = true;
    int n = th ? 3 : 2;
    for (int g = 0; g < n; ++g) {
      for (int r = 0; r < 2; ++r) {
        for (int v = 0; v < 3; ++v) {c.al.push_back(op_add(r, g, v == 2 ? 0 : v, v, v & 1, v & 1, v & 1, v == 2 ? (r ? 3 : 1) : (g + v) % 2 * 2));}
        c.al.push_back(op_rem(r, g, (g + r) & 1));
      }
    }
    g_cfg.push_back(c);
  }
  {
    Cfg c; c.name = "registry histories"; c.P = default_pools(); std_msgs(c.P); c.mask = O_COUNT | O_INFO; c.chk = CK_RET; c.dq = 5; c.dt_ = 6;
    c.P.qtopic = {"rt/chat", "rt/chatter", "x"};
    c.al = {op_add(false, 0, 0, 0, 0, 0, 0, 0), op_add(false, 0, 1, 1, 1, 1, 1, 0), op_add(false, 1, 0, 1, 1, 0, 1, 2), op_add(true, 0, 0, 0, 0, 1, 0, 0),
      op_add(true, 1, 1, 2, 1, 0, 1, 3), op_rem(false, 0, 0), op_rem(false, 1, 1), op_rem(true, 0, 1), op_rem(true, 1, 0)};
    g_cfg.push_back(c);
  }
  {
    Cfg c; c.name = "registry with participants"; c.P = default_pools(); std_msgs(c.P); c.mask = O_COUNT | O_INFO; c.chk = CK_RET; c.dq = 4; c.dt_ = 6;
    c.P.qtopic = {"rt/chat", "rt/chatter"};
    c.al = {op_add(false, 0, 0, 0, 0, 0, 0, 0), op_add(true, 0, 0, 1, 1, 0, 1, 1), op_rem(false, 0, 0), op_rem(true, 0, 0), op_part(0, 0), op_update(0, 0),
      op_update(0, 3), op_rempart(0), op_node(ADD_NODE, 0, 0), op_assoc(AS_W, 0, 0, 0), op_assoc(DI_W, 0, 0, 0), op_node(REM_NODE, 0, 0)};
    g_cfg.push_back(c);
  }
  for (int pos = 0; pos < 16; ++pos) {
    for (int pr = 0; pr < 5; ++pr) {
      Cfg c; c.name = fmt("gids differing in byte %d (%02x/%02x)", pos, BYTE_PAIRS[pr][0], BYTE_PAIRS[pr][1]); c.P = byte_pools(pos, pr); std_msgs(c.P);
      c.mask = O_COUNT | O_INFO; c.chk = CK_RET; c.dq = 3; c.dt_ = 5; c.P.qtopic = {"rt/chat", "rt/chatter"};
      c.al = {op_add(false, 0, 0, 0, 0, 0, 0, 0), op_add(false, 1, 0, 1, 1, 1, 1, 0), op_add(true, 0, 0, 0, 0, 0, 0, 0), op_add(true, 1, 1, 1, 1, 1, 1, 0),
        op_rem(false, 0), op_rem(false, 1), op_rem(true, 0), op_rem(true, 1)};
      g_cfg.push_back(c);
    }
  }
  {
    // n endpoints on a topic interleaved with another topic, remove the k-th, re-add it with other attributes
    Cfg c; c.name = "many endpoints"; c.P = default_pools(); c.mask = O_COUNT | O_INFO; c.chk = CK_RET;
    int N = th ? 40 : 20; c.P.gid.clear();
    for (int i = 0; i < N; ++i) {c.P.gid.push_back(mkgid(static_cast<uint8_t>(0x20 + (i * 37) % 200), static_cast<uint8_t>(i)));}
    c.P.gid.push_back(c.P.gid[0]);
    for (int i = 0; i < N; ++i) {
      c.al.push_back(op_add(i % 2, i, i % 3 == 0, i % 3, i & 1, i & 1, (i / 2) & 1, 0)); c.al.push_back(op_rem(i % 2, i));
      c.al.push_back(op_add(i % 2, i, i % 3 != 0, (i + 1) % 3, (i + 1) & 1, (i + 1) & 1, (i / 2 + 1) & 1, 2));
    }
    for (int n = 1; n <= N; ++n) {
      for (int k = 0; k < n; ++k) {
        std::vector<int> s; for (int i = 0; i < n; ++i) {s.push_back(i * 3);}
        s.push_back(k * 3 + 2); s.push_back(k * 3 + 1); c.scripts.push_back(s); s.push_back(k * 3 + 2); c.scripts.push_back(s);
      }
    }
    g_cfg.push_back(c);
  }
  {
    Cfg c; c.name = "unusual names"; c.P = default_pools(); c.P.topic = odd_names(); c.P.type = odd_names(); c.P.qtopic = odd_names();
    c.mask = O_COUNT | O_INFO; c.chk = CK_RET; int n = static_cast<int>(odd_names().size());
    for (int a = 0; a < n; ++a) {
      for (int b = 0; b < n; ++b) {
        int i = static_cast<int>(c.al.size());
        c.al.push_back(op_add(false, 0, a, b, 0, 0, 0, 0)); c.al.push_back(op_add(true, 1, b, a, 0, 0, 0, 0)); c.al.push_back(op_rem(false, 0));
        c.scripts.push_back({i, i + 1, i + 2});
      }
    }
    g_cfg.push_back(c);
  }
}
static void cfg_c01_attributes(bool th)
{
  {
    // an endpoint with every combination of attributes, added again with every other combination under the same gid (duplicate, and
    // after a removal), once the other kind already using that gid and once not
    Cfg c; c.name = "attribute combinations"; c.P = default_pools(); c.mask = O_COUNT | O_INFO; c.chk = CK_RET; c.P.qtopic = {"rt/chat", "rt/chatter"};
    c.P.hash.push_back(rosidl_get_zero_initialized_type_hash());
    int H = 3, n = 0; std::vector<int> per;
    for (int r = 0; r < 2; ++r) {
      for (int t = 0; t < 2; ++t) {for (int y = 0; y < 2; ++y) {for (int h = 0; h < H; ++h) {for (int p = 0; p < 2; ++p) {for (int q = 0; q < 2; ++q) {
                if (!th && p != q) {continue;}
                c.al.push_back(op_add(r, 0, t, y, h, p, q, h == 2 ? 1 : 0));
              }}}}}
      if (!r) {n = static_cast<int>(c.al.size());}
    }
    int rem[2] = {static_cast<int>(c.al.size()), static_cast<int>(c.al.size()) + 1}; c.al.push_back(op_rem(false, 0)); c.al.push_back(op_rem(true, 0));
    int remw = rem[0], remr = rem[1];
    c.gen = [n, remw, remr](const std::function<void(const std::vector<int> &)> & f) {
        for (int r = 0; r < 2; ++r) {
          int o = r * n, other = (1 - r) * n, rm = r ? remr : remw;
          for (int a = 0; a < n; ++a) {
            for (int b = 0; b < n; ++b) {f({o + a, o + b}); f({o + a, rm, o + b}); f({o + a, other + b}); f({o + a, other + b, rm}); f({o + a, other + b, o + b});}
          }
        }
      };
    g_cfg.push_back(c);
  }
  {
    // the complete QoS: all combinations of the policies, and each of the other fields over its special values
    Cfg c; c.name = "QoS sweep"; c.P = default_pools(); auto & P = c.P; P.qos.clear(); c.mask = O_INFO; c.chk = CK_RET; P.qtopic = {"rt/chat"};
    for (int hi = 0; hi < 4; ++hi) {for (int re = 0; re < 5; ++re) {for (int du = 0; du < 5; ++du) {for (int li = 0; li < 6; ++li) {
            auto q = mkqos(hi + re + du + li); q.history = static_cast<rmw_qos_history_policy_e>(hi); q.reliability = static_cast<rmw_qos_reliability_policy_e>(re);
            q.durability = static_cast<rmw_qos_durability_policy_e>(du); q.liveliness = static_cast<rmw_qos_liveliness_policy_e>(li); P.qos.push_back(q);
          }}}}
    const uint64_t S[] = {0, 1, 999999999, 2147483647, 2147483648ull, 9223372036ull, 9223372036854775807ull, ~0ull};
    rmw_qos_profile_t base; memset(&base, 0, sizeof base);
    for (uint64_t a : S) {
      for (uint64_t b : S) {
        for (int k = 0; k < 6; ++k) {
          auto q = k < 3 ? base : mkqos(k); if (k % 3 == 0) {q.deadline = {a, b};} else if (k % 3 == 1) {q.lifespan = {a, b};} else {q.liveliness_lease_duration = {a, b};}
          P.qos.push_back(q);
        }
      }
      for (int k = 0; k < 4; ++k) {auto q = mkqos(k); q.depth = static_cast<size_t>(a); q.avoid_ros_namespace_conventions = k / 2; P.qos.push_back(q);}
    }
    for (int r = 0; r < 2; ++r) {for (size_t q = 0; q < P.qos.size(); ++q) {c.scripts.push_back({static_cast<int>(c.al.size())}); c.al.push_back(op_add(r, 0, 0, 0, 0, 0, static_cast<int>(q), 0));}}
    g_cfg.push_back(c);
  }
  {
    // every byte of the type hash
    Cfg c; c.name = "type hash sweep"; c.P = default_pools(); auto & P = c.P; P.hash.clear(); c.mask = O_INFO; c.chk = CK_RET; P.qtopic = {"rt/chat"};
    for (int i = 0; i < 33; ++i) {for (int v : {0, 1, 127, 128, 255}) {auto h = mkhash(9); if (i < 32) {h.value[i] = static_cast<uint8_t>(v);} else {h.version = static_cast<uint8_t>(v);} P.hash.push_back(h);}}
    for (int r = 0; r < 2; ++r) {for (size_t h = 0; h < P.hash.size(); ++h) {c.scripts.push_back({static_cast<int>(c.al.size())}); c.al.push_back(op_add(r, 0, 0, 0, static_cast<int>(h), 0, 0, 0));}}
    g_cfg.push_back(c);
  }
}
// ------------------------------------------------------------------ C02
static void cfg_c02(bool th)
{
  cfg_replace(th, O_NT | O_NTNODE, 0, true, ep_before());
  cfg_scale(th, 15, O_NT | O_NTNODE, 0); cfg_names(th, O_NT | O_NTNODE, 0);
  for (int v = 0; v < 2; ++v) {
    Cfg c; c.name = v ? "topic listing, ROS demangling" : "topic listing, identity demangling"; c.P = default_pools(); std_msgs(c.P);
    if (v) {c.dt = ros_dem_topic; c.dy = ros_dem_type;}
    c.mask = O_NT; c.bfs = true; c.dq = v ? 5 : 4; c.dt_ = 6;
    // same topic both sides / same demangled topic / same demangled type / filtered topic
    c.al = {op_add(false, 0, 0, 0, 0, 0, 0, 0), op_add(false, 1, 2, 1, 0, 0, 0, 0), op_add(false, 2, 3, 0, 0, 0, 0, 0), op_add(true, 0, 0, 2, 0, 0, 0, 0),
      op_add(true, 1, 1, 0, 0, 0, 0, 0), op_add(true, 2, 0, 0, 0, 0, 0, 0), op_rem(false, 0), op_rem(false, 1), op_rem(true, 0), op_rem(true, 2)};
    g_cfg.push_back(c);
  }
  for (int v = 0; v < 2; ++v) {
    Cfg c; c.name = v ? "listing by node, ROS demangling" : "listing by node, identity demangling"; c.P = default_pools(); std_msgs(c.P);
    if (v) {c.dt = ros_dem_topic; c.dy = ros_dem_type;}
    c.mask = O_NTNODE | O_NT; c.bfs = true; c.dq = v ? 5 : 4; c.dt_ = 6; c.P.qnode = {{"talker", "/"}, {"talker", "/ns"}, {"/", "talker"}, {"talke", "/"}};
    c.al = {op_add(false, 0, 0, 0, 0, 0, 0, 0), op_add(false, 1, 2, 1, 0, 1, 0, 0), op_add(true, 0, 0, 2, 0, 0, 0, 0), op_add(true, 1, 3, 0, 0, 0, 0, 0),
      op_rem(false, 0), op_rem(true, 0), op_update(0, 0), op_update(0, 1), op_update(1, 2), op_update(0, 3), op_rempart(0)};
    g_cfg.push_back(c);
  }
  {
    Cfg c; c.name = "listing by node, local nodes"; c.P = default_pools(); std_msgs(c.P); c.mask = O_NTNODE | O_NT; c.bfs = true; c.dq = 5; c.dt_ = 7;
    c.P.qnode = {{"talker", "/"}, {"talker", "/ns"}};
    c.al = {op_part(0, 0), op_node(ADD_NODE, 0, 0), op_node(ADD_NODE, 0, 1), op_add(false, 0, 0, 0, 0, 0, 0, 0), op_add(true, 0, 1, 1, 0, 0, 0, 0),
      op_assoc(AS_W, 0, 0, 0), op_assoc(AS_R, 0, 0, 0), op_assoc(AS_W, 0, 0, 1), op_assoc(DI_W, 0, 0, 0), op_assoc(DI_R, 0, 0, 0), op_node(REM_NODE, 0, 0)};
    g_cfg.push_back(c);
  }
  for (int pos = 0; pos < 16; ++pos) {
    for (int pr = 0; pr < 5; ++pr) {
      Cfg c; c.name = fmt("listing with gids differing in byte %d (%02x/%02x)", pos, BYTE_PAIRS[pr][0], BYTE_PAIRS[pr][1]); c.P = byte_pools(pos, pr);
      auto & P = c.P;
      P.msg = {{{mknode("/", "talker", {P.gid[1]}, {P.gid[0]}), mknode("/ns", "talker", {P.gid[0]}, {P.gid[1]})}}, {{mknode("/", "talker", {P.gid[0]}, {})}}};
      c.mask = O_NT | O_NTNODE; c.dq = 3; c.dt_ = 5; P.qnode = {{"talker", "/"}, {"talker", "/ns"}};
      c.al = {op_add(false, 0, 0, 0, 0, 0, 0, 0), op_add(false, 1, 1, 1, 1, 1, 1, 0), op_add(true, 0, 2, 0, 0, 0, 0, 0), op_add(true, 1, 3, 1, 1, 1, 1, 0),
        op_update(0, 0), op_update(1, 1)};
      g_cfg.push_back(c);
    }
  }
  {
    Cfg c; c.name = "unusual names"; c.P = default_pools(); auto & P = c.P; P.topic = odd_names(); P.type = odd_names(); P.qnode.clear();
    c.mask = O_NT | O_NTNODE; int n = static_cast<int>(odd_names().size()); P.node.clear(); P.msg.clear();
    for (int a = 0; a < n; ++a) {P.node.push_back({odd_names()[a], odd_names()[(a + 1) % n]}); P.qnode.push_back(P.node.back()); P.qnode.push_back({P.node.back().ns, P.node.back().name});}
    for (int a = 0; a < n; ++a) {
      for (int b = 0; b < n; ++b) {
        P.msg.push_back({{mknode(P.node[a].ns, P.node[a].name, {P.gid[1]}, {P.gid[0]})}});
        int i = static_cast<int>(c.al.size());
        c.al.push_back(op_add(false, 0, a, b, 0, 0, 0, 0)); c.al.push_back(op_add(true, 1, b, a, 0, 0, 0, 0)); c.al.push_back(op_update(0, static_cast<int>(P.msg.size()) - 1));
        c.scripts.push_back({i, i + 1, i + 2});
      }
    }
    g_cfg.push_back(c);
  }
  {
    // n endpoints over few topics and types, all announced by one node
    Cfg c; c.name = "many endpoints"; c.P = default_pools(); auto & P = c.P; c.mask = O_NT | O_NTNODE; c.dt = ros_dem_topic; c.dy = ros_dem_type;
    P.gid.clear(); P.topic.clear(); P.type.clear(); std::vector<Gid> all;
    for (int i = 0; i < 24; ++i) {P.gid.push_back(mkgid(static_cast<uint8_t>((i * 53) % 256), static_cast<uint8_t>(i))); all.push_back(P.gid.back());}
    for (int i = 0; i < 12; ++i) {P.topic.push_back(fmt("rt/t%d", i)); P.type.push_back(fmt("p%d::dds_::T%d", i, i / 2));}
    for (int n = 1; n <= 24; ++n) {P.msg.push_back({{mknode("/", "talker", std::vector<Gid>(all.begin(), all.begin() + n), std::vector<Gid>(all.begin() + (24 - n), all.end()))}});}
    for (int i = 0; i < 24; ++i) {
      for (int r = 0; r < 2; ++r) {c.al.push_back(op_add(r, i, (i * 7 + r) % 12, (i * 5 + r) % 12, 0, 0, 0, 0));}
    }
    for (int n = 1; n <= 24; ++n) {
      c.al.push_back(op_update(0, n - 1)); int u = static_cast<int>(c.al.size()) - 1;
      for (int k = 0; k < 24; ++k) {
        std::vector<int> s; for (int i = 0; i < k; ++i) {s.push_back(i * 2); s.push_back(i * 2 + 1);}
        s.push_back(u); c.scripts.push_back(s);
      }
    }
    g_cfg.push_back(c);
  }
}
// ------------------------------------------------------------------ C03
static void cfg_c03(bool th)
{
  cfg_replace(th, O_NODES | O_NUM, CK_PRET, false, {op_part(0, 1)});
  cfg_scale(th, 14, O_NODES | O_NUM, CK_PRET); cfg_names(th, O_NODES | O_NUM, CK_PRET);
  {
    Cfg c; c.name = "node listing state graph"; c.P = default_pools(); std_msgs(c.P); c.mask = O_NODES | O_NUM; c.chk = CK_PRET; c.bfs = true; c.allow_dup = true; c.node_cap = 2;
    c.dq = 4; c.dt_ = 6;
    c.al = {op_part(0, 0), op_part(0, 1), op_part(1, 1), op_rempart(0), op_rempart(1), op_update(0, 0), op_update(0, 1), op_update(0, 3), op_update(1, 1),
      op_node(ADD_NODE, 0, 0), op_node(ADD_NODE, 0, 1), op_node(REM_NODE, 0, 0), op_node(ADD_NODE, 1, 0), op_node(REM_NODE, 1, 0)};
    g_cfg.push_back(c);
  }
  {
    Cfg c; c.name = "three participants, remote only"; c.P = default_pools(); std_msgs(c.P); c.mask = O_NODES | O_NUM; c.chk = CK_PRET; c.bfs = true; c.dq = 5; c.dt_ = 6;
    c.al = {op_part(0, 0), op_part(1, 1), op_part(1, 2), op_rempart(0), op_rempart(1), op_update(0, 1), op_update(1, 0), op_update(1, 3), op_update(2, 2)};
    g_cfg.push_back(c);
  }
  {
    // endpoints must not influence nodes
    Cfg c; c.name = "nodes with endpoints"; c.P = default_pools(); std_msgs(c.P); c.mask = O_NODES | O_NUM; c.chk = CK_PRET; c.dq = 4; c.dt_ = 6;
    c.al = {op_part(0, 0), op_node(ADD_NODE, 0, 0), op_node(REM_NODE, 0, 0), op_add(false, 0, 0, 0, 0, 0, 0, 0), op_rem(false, 0), op_assoc(AS_W, 0, 0, 0), op_assoc(DI_W, 0, 0, 0),
      op_assoc(AS_R, 0, 0, 0), op_assoc(DI_R, 0, 0, 0), op_rempart(0), op_update(1, 4), op_rempart(1)};
    g_cfg.push_back(c);
  }
  for (int pos = 0; pos < 16; ++pos) {
    for (int pr = 0; pr < 5; ++pr) {
      Cfg c; c.name = fmt("participants differing in byte %d (%02x/%02x)", pos, BYTE_PAIRS[pr][0], BYTE_PAIRS[pr][1]); c.P = byte_pools(pos, pr); std_msgs(c.P);
      c.mask = O_NODES | O_NUM; c.chk = CK_PRET; c.dq = 3; c.dt_ = 4;
      c.al = {op_part(0, 0), op_part(1, 1), op_update(0, 0), op_update(1, 1), op_rempart(0), op_rempart(1), op_node(ADD_NODE, 0, 1), op_node(ADD_NODE, 1, 2)};
      g_cfg.push_back(c);
    }
  }
  {
    Cfg c; c.name = "unusual names and many nodes"; c.P = default_pools(); auto & P = c.P; c.mask = O_NODES | O_NUM; c.chk = CK_PRET; c.node_cap = 1000; c.allow_dup = true;
    auto o = odd_names(); int n = static_cast<int>(o.size()); P.node.clear(); P.enclave = o; P.msg.clear();
    for (int a = 0; a < n; ++a) {for (int b = 0; b < n; ++b) {P.node.push_back({o[a], o[b]});}}
    for (int a = 0; a < n; ++a) {c.al.push_back(op_part(a % 3, a));}
    for (int a = 0; a < n * n; ++a) {
      std::vector<MNode> v; for (int i = 0; i <= a % 40; ++i) {auto & q = P.node[(a + i) % (n * n)]; v.push_back(mknode(q.ns, q.name));}
      P.msg.push_back({v});
      int i = static_cast<int>(c.al.size());
      c.al.push_back(op_update(a % 3, a)); c.al.push_back(op_node(ADD_NODE, a % 3, a)); c.al.push_back(op_update((a + 1) % 3, a / 2)); c.al.push_back(op_node(REM_NODE, a % 3, a));
      c.scripts.push_back({a % n, i, i + 1, i + 2, i + 3});
    }
    g_cfg.push_back(c);
  }
}
// ------------------------------------------------------------------ C04
static void cfg_c04(bool th)
{
  cfg_replace(th, O_NODEATTR, 0, false, ep_before());
  cfg_scale(th, 15, O_NODEATTR, 0); cfg_names(th, O_NODEATTR, 0);
  {
    Cfg c; c.name = "attribution, announcements"; c.P = default_pools(); std_msgs(c.P); c.mask = O_NODEATTR; c.bfs = true; c.dq = 4; c.dt_ = 6; c.P.qtopic = {"rt/chat"};
    c.al = {op_add(false, 0, 0, 0, 0, 0, 0, 0), op_add(false, 1, 0, 0, 0, 1, 0, 0), op_add(true, 0, 0, 0, 0, 0, 0, 0), op_add(true, 1, 0, 0, 0, 0, 0, 0), op_rem(false, 0), op_rem(true, 0),
      op_update(0, 0), op_update(0, 1), op_update(0, 2), op_update(0, 3), op_update(1, 4), op_part(0, 0), op_rempart(0), op_rempart(1)};
    g_cfg.push_back(c);
  }
  {
    Cfg c; c.name = "attribution, local associations"; c.P = default_pools(); std_msgs(c.P); c.mask = O_NODEATTR; c.bfs = true; c.dq = 6; c.dt_ = 8; c.P.qtopic = {"rt/chat"};
    c.al = {op_part(0, 0), op_node(ADD_NODE, 0, 0), op_node(ADD_NODE, 0, 1), op_add(false, 0, 0, 0, 0, 0, 0, 0), op_add(true, 0, 0, 0, 0, 0, 0, 0), op_assoc(AS_W, 0, 0, 0),
      op_assoc(AS_W, 0, 0, 1), op_assoc(AS_R, 0, 0, 1), op_assoc(DI_W, 0, 0, 0), op_assoc(DI_R, 0, 0, 1), op_node(REM_NODE, 0, 1)};
    g_cfg.push_back(c);
  }
  {
    Cfg c; c.name = "attribution, two endpoints per node"; c.P = default_pools(); std_msgs(c.P); c.mask = O_NODEATTR; c.bfs = true; c.P.qtopic = {"rt/chat"};
    c.al = {op_part(0, 0), op_part(1, 0), op_node(ADD_NODE, 0, 0), op_node(ADD_NODE, 1, 0)};
    for (int g = 0; g < 2; ++g) {
      for (int r = 0; r < 2; ++r) {
        c.al.push_back(op_add(r, g, 0, 0, 0, g, 0, 0));
        for (int p = 0; p < 2; ++p) {c.al.push_back(op_assoc(r ? AS_R : AS_W, g, p, 0)); c.al.push_back(op_assoc(r ? DI_R : DI_W, g, p, 0));}
      }
    }
    g_cfg.push_back(c);
  }
  for (int pos = 0; pos < 16; ++pos) {
    for (int pr = 0; pr < 5; ++pr) {
      Cfg c; c.name = fmt("attribution with gids differing in byte %d (%02x/%02x)", pos, BYTE_PAIRS[pr][0], BYTE_PAIRS[pr][1]); c.P = byte_pools(pos, pr);
      auto & P = c.P;
      P.msg = {{{mknode("/", "talker", {P.gid[1]}, {P.gid[0]}), mknode("/ns", "talker", {P.gid[0]}, {P.gid[1]})}}, {{mknode("/", "talker", {P.gid[0]}, {})}}};
      c.mask = O_NODEATTR; c.dq = 3; c.dt_ = 5; P.qtopic = {"rt/chat"};
      c.al = {op_add(false, 0, 0, 0, 0, 0, 0, 0), op_add(false, 1, 0, 1, 1, 0, 1, 0), op_add(true, 0, 0, 0, 0, 0, 0, 0), op_add(true, 1, 0, 1, 1, 1, 1, 0),
        op_update(0, 0), op_update(1, 1), op_update(1, 0), op_rempart(0)};
      g_cfg.push_back(c);
    }
  }
  {
    // the announcing node is the i-th of n nodes and the gid the j-th of its gids
    Cfg c; c.name = "position of the announcement"; c.P = default_pools(); auto & P = c.P; c.mask = O_NODEATTR; P.qtopic = {"rt/chat"};
    for (int r = 0; r < 2; ++r) {c.al.push_back(op_add(r, 0, 0, 0, 0, 0, 0, 0));}
    auto o = odd_names();
    for (int n = 1; n <= 6; ++n) {
      for (int i = 0; i < n; ++i) {
        for (int k = 1; k <= 5; ++k) {
          for (int j = 0; j < k; ++j) {
            for (int r = 0; r < 2; ++r) {
              std::vector<MNode> v;
              for (int a = 0; a < n; ++a) {
                std::vector<Gid> own, oth;
                for (int b = 0; b < k; ++b) {own.push_back(a == i && b == j ? P.gid[0] : mkgid(0x77, static_cast<uint8_t>(a * 16 + b))); oth.push_back(mkgid(0x79, static_cast<uint8_t>(a * 16 + b)));}
                if (a != i) {oth.push_back(P.gid[0]);}
                v.push_back(mknode("/" + o[a + 1], fmt("node%d", a), r ? own : oth, r ? oth : own));
              }
              P.msg.push_back({v}); c.al.push_back(op_update(0, static_cast<int>(P.msg.size()) - 1));
              c.scripts.push_back({r, static_cast<int>(c.al.size()) - 1});
            }
          }
        }
      }
    }
    g_cfg.push_back(c);
  }
}
// ------------------------------------------------------------------ C07
static void cfg_c07(bool th)
{
  cfg_replace(th, 0, CK_CB, false, {op_part(0, 0)}, true);
  cfg_scale(th, 15, 0, CK_CB, true);
  auto cbop = [](Kind k, int which = 0) {Op o; o.k = k; o.msg = which; return o;};
  {
    Cfg c; c.name = "notifications, endpoints and participants"; c.P = default_pools(); std_msgs(c.P); c.chk = CK_CB; c.bfs = true; c.dq = 4; c.dt_ = 6; c.end_only = false;
    c.al = {cbop(SET_CB, 0), cbop(SET_CB, 1), cbop(CLR_CB), cbop(QUERY), op_add(false, 0, 0, 0, 0, 0, 0, 0), op_add(false, 0, 1, 1, 1, 1, 1, 3), op_add(true, 0, 0, 0, 0, 0, 0, 1),
      op_rem(false, 0, 0), op_rem(true, 0, 1), op_part(0, 0), op_part(0, 1), op_update(0, 0), op_update(0, 3), op_rempart(0)};
    g_cfg.push_back(c);
  }
  {
    Cfg c; c.name = "notifications, local nodes"; c.P = default_pools(); std_msgs(c.P); c.chk = CK_CB; c.bfs = true; c.dq = 6; c.dt_ = 7; c.end_only = false;
    c.al = {cbop(SET_CB, 0), cbop(SET_CB, 1), cbop(CLR_CB), op_part(0, 0), op_node(ADD_NODE, 0, 0), op_node(REM_NODE, 0, 0), op_assoc(AS_W, 0, 0, 0), op_assoc(DI_W, 0, 0, 0),
      op_assoc(AS_R, 0, 0, 0), op_assoc(DI_R, 0, 0, 0)};
    g_cfg.push_back(c);
  }
  {
    Cfg c; c.name = "notifications, kinds of callables"; c.P = default_pools(); c.chk = CK_CB; c.dq = 4; c.dt_ = 5; c.end_only = false;
    for (int k = 0; k < 10; ++k) {c.al.push_back(cbop(SET_CB, k));}
    for (auto & o : {cbop(CLR_CB), op_add(false, 0, 0, 0, 0, 0, 0, 0), op_rem(false, 0, 0), op_part(0, 0)}) {c.al.push_back(o);}
    g_cfg.push_back(c);
  }
  {
    // callback set first, longer runs of endpoint operations with all overloads
    Cfg c; c.name = "notifications, all endpoint overloads"; c.P = default_pools(); std_msgs(c.P); c.chk = CK_CB; c.bfs = true; c.end_only = false;
    c.al = {cbop(SET_CB, 0), cbop(QUERY)};
    for (int r = 0; r < 2; ++r) {for (int o = 0; o < 4; ++o) {c.al.push_back(op_add(r, o & 1, 0, 0, 0, 0, 0, o));}}
    for (int r = 0; r < 2; ++r) {for (int o = 0; o < 4; ++o) {c.al.push_back(op_rem(r, o & 1, o >> 1));}}
    g_cfg.push_back(c);
  }
}
// ------------------------------------------------------------------ C26
static void cfg_c26(bool th)
{
  cfg_replace(th, O_PRINT, 0, false, ep_before());
  cfg_scale(th, 15, O_PRINT, 0); cfg_names(th, O_PRINT, 0, false);
  Cfg c; c.name = "printed graph"; c.P = default_pools(); std_msgs(c.P); c.mask = O_PRINT; c.bfs = true; c.dq = 4; c.dt_ = 5;
  c.P.gid[0][1] = 0; c.P.gid[0][2] = 0x0f; c.P.gid[1][5] = 0xff;
  c.al = {op_add(false, 0, 0, 0, 0, 0, 0, 0), op_add(false, 1, 1, 1, 1, 1, 1, 0), op_add(true, 0, 1, 1, 0, 0, 0, 0), op_rem(false, 0), op_rem(true, 0), op_part(0, 0), op_part(1, 1), op_rempart(0),
    op_update(0, 0), op_update(0, 1), op_update(1, 2), op_update(1, 4), op_node(ADD_NODE, 0, 2), op_assoc(AS_R, 2, 0, 2), op_assoc(AS_W, 3, 0, 2)};
  g_cfg.push_back(c);
  {
    Cfg d; d.name = "printed graph, many"; d.P = c.P; d.mask = O_PRINT; auto & P = d.P; P.gid.clear();
    for (int i = 0; i < 20; ++i) {Gid g; for (int j = 0; j < 16; ++j) {g[j] = static_cast<uint8_t>(i * 13 + j * 17);} P.gid.push_back(g);}
    for (int i = 0; i < 20; ++i) {d.al.push_back(op_add(i & 1, i, i % 4, i % 3, 0, 0, 0, 0));}
    P.msg.clear();
    for (int n = 0; n < 12; ++n) {
      std::vector<MNode> v; for (int i = 0; i < n; ++i) {v.push_back(mknode("/ns" + std::to_string(i), "n" + std::to_string(i), {P.gid.begin(), P.gid.begin() + i}, {P.gid.begin() + i, P.gid.begin() + 2 * i % 20 + (2 * i % 20 < i ? i : 0)}));}
      P.msg.push_back({v}); d.al.push_back(op_update(n % 3, n));
    }
    for (int n = 0; n < 12; ++n) {for (int k = 0; k <= 20; k += 2) {std::vector<int> s; for (int i = 0; i < k; ++i) {s.push_back(i);} s.push_back(20 + n); if (n) {s.push_back(20 + n - 1);} d.scripts.push_back(s);}}
    g_cfg.push_back(d);
  }
}

// ------------------------------------------------------------------ C05: delivery orders
struct FactSet {std::string name; Pools P; std::vector<std::vector<Op>> streams; bool thorough_only = false;};
static std::vector<FactSet> g_facts;
static void make_facts(bool th)
{
  auto W = [](int g, int t, int y, int p) {return op_add(false, g, t, y, g & 1, p, g & 1, 0);};
  auto R = [](int g, int t, int y, int p) {return op_add(true, g, t, y, g & 1, p, g & 1, 0);};
  auto RW = [](int g) {return op_rem(false, g);};
  auto RR = [](int g) {return op_rem(true, g);};
  Pools P = default_pools(); std_msgs(P); P.qtopic = {"rt/chat", "rt/chatter"}; P.qnode = {{"talker", "/"}, {"talker", "/ns"}};
  g_facts.push_back({"one participant", P, {{op_part(0, 0)}, {op_update(0, 1), op_update(0, 0)}, {W(0, 0, 0, 0)}, {R(0, 0, 1, 0), RR(0), R(0, 0, 1, 0)}, {W(1, 1, 1, 0)}}, false});
  g_facts.push_back({"two participants", P, {{op_part(0, 0)}, {op_part(1, 1)}, {op_update(0, 4)}, {op_update(1, 0), op_update(1, 2)}, {W(0, 0, 0, 0)}, {R(0, 0, 1, 1)}, {W(1, 0, 2, 0), RW(1)}}, false});
  g_facts.push_back({"announced gid discovered late", P, {{op_update(0, 0), op_update(0, 3), op_update(0, 0)}, {W(0, 0, 0, 0), RW(0), W(0, 0, 0, 0)}, {R(0, 0, 1, 0)}, {op_part(0, 0), op_part(0, 1)}}, false});
  g_facts.push_back({"participant leaves and returns", P, {{op_update(0, 0), op_part(0, 0), op_rempart(0), op_part(0, 1), op_update(0, 1)}, {W(0, 0, 0, 0), RW(0), W(0, 0, 0, 0)}, {R(1, 0, 1, 0)}, {op_update(1, 2)}}, false});
  g_facts.push_back({"participant gone for good", P, {{op_part(0, 0), op_update(0, 0), op_rempart(0)}, {W(0, 0, 0, 0)}, {R(0, 1, 1, 0), RR(0)}, {op_part(1, 1)}, {op_update(1, 4)}}, false});
  g_facts.push_back({"same endpoint gid in two participants' announcements", P, {{op_update(0, 0)}, {op_update(1, 0)}, {op_part(0, 0)}, {op_part(1, 1)}, {W(0, 0, 0, 0)}, {R(0, 0, 1, 1)}, {W(1, 1, 0, 1)}}, false});
  g_facts.push_back({"many streams", P, {{op_part(0, 0)}, {op_update(0, 1), op_update(0, 4)}, {op_part(1, 1)}, {op_update(1, 2), op_update(1, 1)}, {W(0, 0, 0, 0)}, {R(0, 0, 1, 0), RR(0)}, {W(1, 0, 1, 1)}, {R(1, 1, 2, 1)}}, true});
  // every announcement (of at most one node, thorough: two nodes of different names) replaced by every other one
  Pools Q = P; Q.msg.clear(); size_t one = 0;
  for (auto & m : all_msgs(P, 1, 2, th ? 2 : 1)) {
    if (m.size() == 2 && m[0].ns == m[1].ns) {continue;}
    if (m.size() < 2) {one++;}
    Q.msg.push_back({m});
  }
  Q.qtopic = {"rt/chat"};
  for (size_t a = 0; a < Q.msg.size(); ++a) {
    for (size_t b = 0; b < Q.msg.size(); ++b) {
      if (a >= one && b >= one) {continue;}
      Pools S = Q; S.msg = {Q.msg[a], Q.msg[b]};
      g_facts.push_back({fmt("announcement %zu replaced by %zu", a, b), S, {{op_update(0, 0), op_update(0, 1)}, {W(0, 0, 0, 0)}, {W(1, 0, 1, 0)}, {R(0, 0, 0, 0)}}, false});
    }
  }
}
static std::string describe_order(const Case & cs)
{
  auto & f = g_facts[cs.mode]; std::vector<size_t> at(f.streams.size(), 0); std::string s = f.name + ": ";
  for (int i : cs.v) {s += op_str(f.streams[i][at[i]++]) + " ";}
  return s;
}
static Model fact_final(const FactSet & f)
{
  Model m; for (auto & st : f.streams) {for (auto & o : st) {apply_model(m, f.P, o);}}
  return m;
}
static void exec_order(Ctx & x, const Case & cs)
{
  auto & f = g_facts.at(cs.mode); GraphCache gc; std::vector<size_t> at(f.streams.size(), 0); Model m;
  for (int i : cs.v) {const Op & o = f.streams[i][at[i]++]; apply_real(gc, f.P, o); apply_model(m, f.P, o); x.transitions++;}
  Observer ob(f.P, O_ALL & ~O_PRINT);
  std::string d = ob.compare(gc, fact_final(f));
  if (!d.empty()) {x.fail("after this delivery order: " + d);}
  x.outcome(hx::hash_str(m.key())); x.traces++;
}
static void enum_orders_rec(Ctx & x, int fi, std::vector<size_t> & at, std::vector<int> & pre, size_t total)
{
  if (x.stop()) {return;}
  if (pre.size() == total) {if (x.mine()) {Case c; c.mode = fi; c.v = pre; x.run(c);} return;}
  auto & f = g_facts[fi];
  for (size_t i = 0; i < at.size(); ++i) {
    if (at[i] >= f.streams[i].size()) {continue;}
    at[i]++; pre.push_back(static_cast<int>(i)); enum_orders_rec(x, fi, at, pre, total); pre.pop_back(); at[i]--;
  }
}
static void enum_orders(Ctx & x)
{
  for (size_t i = 0; i < g_facts.size() && !x.stop(); ++i) {
    if (g_facts[i].thorough_only && (!x.thorough || x.variant == "asan")) {continue;}
    size_t t = 0; uint64_t pos = 1;
    for (auto & s : g_facts[i].streams) {t += s.size(); pos *= s.size() + 1;}
    if (x.shard == 0) {x.states += pos;}   // positions in the product of the event streams
    std::vector<size_t> at(g_facts[i].streams.size(), 0); std::vector<int> pre;
    enum_orders_rec(x, static_cast<int>(i), at, pre, t);
  }
}

// ------------------------------------------------------------------ C06: snapshots and replicas
// choices: alphabet index * 3 + delivery (0 lost, 1 delivered, 2 delivered twice); mode: config*4 + initial replica state
struct RepCfg {std::string name; Pools P; std::vector<Op> al; int dq, dt_;};
static std::vector<RepCfg> g_rep;
static void make_rep()
{
  Pools P = default_pools(); std_msgs(P); P.qtopic = {"rt/chat"}; P.qnode = {{"talker", "/"}, {"talker", "/ns"}};
  g_rep.push_back({"writers", P, {op_node(ADD_NODE, 0, 0), op_node(ADD_NODE, 0, 1), op_node(REM_NODE, 0, 0), op_assoc(AS_W, 0, 0, 0), op_assoc(DI_W, 0, 0, 0), op_assoc(AS_W, 1, 0, 0),
      op_assoc(DI_W, 1, 0, 0), op_assoc(AS_W, 0, 0, 1)}, 4, 6});
  g_rep.push_back({"readers", P, {op_node(ADD_NODE, 0, 0), op_node(ADD_NODE, 0, 1), op_node(REM_NODE, 0, 1), op_assoc(AS_R, 0, 0, 0), op_assoc(DI_R, 0, 0, 0), op_assoc(AS_R, 1, 0, 0),
      op_assoc(DI_R, 1, 0, 0), op_assoc(AS_R, 0, 0, 1)}, 4, 6});
  g_rep.push_back({"mixed", P, {op_node(ADD_NODE, 0, 0), op_assoc(AS_W, 0, 0, 0), op_assoc(AS_R, 0, 0, 0), op_assoc(DI_W, 0, 0, 0), op_assoc(DI_R, 0, 0, 0), op_node(REM_NODE, 0, 0), op_node(ADD_NODE, 0, 1)}, 4, 6});
  // interference of other participants on the sender
  g_rep.push_back({"other participants", P, {op_node(ADD_NODE, 0, 0), op_assoc(AS_W, 0, 0, 0), op_assoc(AS_R, 1, 0, 0), op_update(1, 4), op_rempart(1), op_node(REM_NODE, 0, 0), op_assoc(DI_W, 0, 0, 0)}, 4, 5});
}
static bool rep_ok(Model & m, const RepCfg & c, const Op & o)
{
  Cfg t; t.P = c.P; t.node_cap = 2; return op_ok(m, t, o);
}
static std::string describe_rep(const Case & cs)
{
  auto & c = g_rep[cs.mode / 4]; static const char * ini[] = {"empty replica", "stale replica", "replica knows other participant", "replica knows enclave"}; static const char * dl[] = {"lost", "delivered", "delivered twice"};
  std::string s = c.name + ", " + ini[cs.mode % 4] + ": ";
  for (int i : cs.v) {s += op_str(c.al[i / 3]) + "/" + dl[i % 3] + " ";}
  return s;
}
static void exec_rep(Ctx & x, const Case & cs)
{
  auto & c = g_rep.at(cs.mode / 4); int ini = cs.mode % 4;
  GraphCache a, b; Model m, rm;   // rm: what the replica should know
  auto both = [&](const Op & o) {apply_real(a, c.P, o); apply_real(b, c.P, o); apply_model(m, c.P, o); apply_model(rm, c.P, o);};
  for (int g = 0; g < 2; ++g) {both(op_add(false, g, 0, 0, 0, 0, 0, 0)); both(op_add(true, g, 0, 0, 0, 0, 0, 0));}
  apply_real(a, c.P, op_part(0, 0)); apply_model(m, c.P, op_part(0, 0));
  auto ronly = [&](const Op & o) {apply_real(b, c.P, o); apply_model(rm, c.P, o);};
  if (ini == 1) {ronly(op_update(0, 4));}
  if (ini == 2) {ronly(op_update(1, 4));}
  if (ini == 3) {ronly(op_part(0, 1));}
  Observer ob(c.P, O_NODES | O_NUM | O_NODEATTR);
  for (int ch : cs.v) {
    const Op & o = c.al.at(ch / 3); int del = ch % 3;
    Effect e = apply_model(m, c.P, o);
    RealRet r = apply_real(a, c.P, o);
    x.transitions++;
    if (!e.has_msg) {continue;}
    auto & nodes = m.p[c.P.part[o.part]].nodes;
    std::string want = gs(c.P.part[o.part]) + ":" + nodes_text(nodes), got = msg_text(r.msg);
    if (want != got) {x.fail(op_str(o) + ": message expected " + want + " got " + got); return;}
    if (del) {
      rm.p[c.P.part[o.part]].nodes = nodes;
      for (int k = 0; k < del; ++k) {b.update_participant_entities(r.msg);}
      std::string d = ob.compare(b, rm);
      if (!d.empty()) {x.fail("replica after applying the message of " + op_str(o) + ": " + d); return;}
    }
  }
  Observer oa(c.P, O_NODES | O_NODEATTR); std::string d = oa.compare(a, m);
  if (!d.empty()) {x.fail("sender: " + d);}
  x.outcome(ob.h); x.traces++;
}
static void enum_rep_rec(Ctx & x, int ci, int ini, int depth, std::vector<int> & pre, const Model & m)
{
  if (x.stop()) {return;}
  if (static_cast<int>(pre.size()) == depth) {if (x.mine()) {Case cs; cs.mode = ci * 4 + ini; cs.v = pre; x.run(cs);} return;}
  auto & c = g_rep[ci]; bool any = false;
  for (size_t i = 0; i < c.al.size(); ++i) {
    Model n = m; if (!rep_ok(n, c, c.al[i])) {continue;}
    any = true; Effect e = apply_model(n, c.P, c.al[i]);
    for (int d = 0; d < (e.has_msg ? 3 : 1); ++d) {pre.push_back(static_cast<int>(i) * 3 + d); enum_rep_rec(x, ci, ini, depth, pre, n); pre.pop_back();}
  }
  if (!any && x.mine()) {Case cs; cs.mode = ci * 4 + ini; cs.v = pre; x.run(cs);}
}
static void enum_rep(Ctx & x)
{
  for (size_t i = 0; i < g_rep.size() && !x.stop(); ++i) {
    int d = x.thorough ? g_rep[i].dt_ : g_rep[i].dq; if (x.variant == "asan") {d--;}
    for (int ini = 0; ini < 4; ++ini) {
      Model m; m.p[g_rep[i].P.part[0]]; std::vector<int> pre;
      enum_rep_rec(x, static_cast<int>(i), ini, d, pre, m);
    }
  }
  // and the plain message check over the whole state graph of local operations
  enum_cfgs(x);
}
static void cfg_c06(bool th)
{
  Cfg c; c.name = "messages state graph"; c.P = default_pools(); std_msgs(c.P); c.chk = CK_MSG; c.bfs = true; c.node_cap = 3; c.dq = 5; c.dt_ = 6; c.end_only = false;
  c.al = {op_part(0, 0), op_part(1, 1), op_node(ADD_NODE, 0, 0), op_node(ADD_NODE, 0, 1), op_node(ADD_NODE, 0, 2), op_node(ADD_NODE, 1, 0), op_node(REM_NODE, 0, 0), op_node(REM_NODE, 0, 1), op_assoc(AS_W, 0, 0, 0),
    op_assoc(AS_R, 0, 0, 0), op_assoc(DI_W, 0, 0, 0), op_assoc(DI_R, 0, 0, 0), op_assoc(AS_W, 1, 0, 1), op_assoc(AS_R, 1, 1, 0)};
  g_cfg.push_back(c);
  {
    Cfg d; d.name = "many nodes and endpoints in messages"; d.P = default_pools(); d.chk = CK_MSG; d.node_cap = 1000; auto & P = d.P; P.node.clear(); P.gid.clear();
    for (int i = 0; i < 24; ++i) {P.gid.push_back(mkgid(static_cast<uint8_t>(i * 11), static_cast<uint8_t>(255 - i)));}
    for (int i = 0; i < 8; ++i) {P.node.push_back({fmt("n%d", i), i % 2 ? "/" : "/ns"});}
    d.al.push_back(op_part(0, 0));
    for (int i = 0; i < 8; ++i) {d.al.push_back(op_node(ADD_NODE, 0, i)); d.al.push_back(op_node(REM_NODE, 0, i));}
    for (int g = 0; g < 24; ++g) {
      for (int r = 0; r < 2; ++r) {d.al.push_back(op_assoc(r ? AS_R : AS_W, g, 0, g % 8)); d.al.push_back(op_assoc(r ? DI_R : DI_W, g, 0, g % 8));}
    }
    std::vector<int> s{0}; for (int i = 0; i < 8; ++i) {s.push_back(1 + 2 * i);}
    for (int g = 0; g < 24; ++g) {s.push_back(17 + 4 * g); s.push_back(19 + 4 * g);}
    for (int g = 0; g < 24; ++g) {auto t = s; t.push_back(18 + 4 * g); d.scripts.push_back(t); t.push_back(20 + 4 * g); t.push_back(2 + 2 * (g % 8)); d.scripts.push_back(t);}
    g_cfg.push_back(d);
  }
  cfg_replace(th, O_NODEATTR, 0, false, ep_before());
  cfg_scale(th, 4, 0, CK_MSG); cfg_names(th, 0, CK_MSG);
  if (g_rep.empty()) {make_rep();}
}

// ------------------------------------------------------------------ C08 fault enumeration
enum Query {Q_WINFO, Q_RINFO, Q_NT, Q_WNODE, Q_RNODE, Q_NODES3, Q_NODES2, NQ};
static const char * qname(int q)
{
  static const char * n[] = {"get_writers_info_by_topic", "get_readers_info_by_topic", "get_names_and_types", "get_writer_names_and_types_by_node", "get_reader_names_and_types_by_node", "get_node_names+enclaves", "get_node_names"};
  return n[q];
}
struct DemangleError {};
struct QOut
{
  rmw_topic_endpoint_info_array_t ei = rmw_get_zero_initialized_topic_endpoint_info_array();
  rmw_names_and_types_t nt = rmw_get_zero_initialized_names_and_types();
  rcutils_string_array_t a = rcutils_get_zero_initialized_string_array(), b = a, c = a;
  std::string text() const
  {
    std::multiset<std::string> e;
    auto z = [](const char * s) {return std::string(s ? s : "(null)");};
    for (size_t i = 0; i < ei.size; ++i) {
      auto & x = ei.info_array[i]; Gid g; memcpy(g.data(), x.endpoint_gid, 16);
      e.insert(gs(g) + z(x.node_name) + "|" + z(x.node_namespace) + "|" + z(x.topic_type) + hash_str(x.topic_type_hash) + qos_str(x.qos_profile) + std::to_string(x.endpoint_type));
    }
    std::string s = fmt("%zu:", ei.size); for (auto & t : e) {s += t + ";";}
    s += fmt("%zu:", nt.names.size); if (nt.names.size && nt.types) {s += nt_real_text(nt);}
    for (auto * r : {&a, &b, &c}) {s += fmt("%zu:", r->size); std::multiset<std::string> m; for (size_t i = 0; i < r->size; ++i) {m.insert(z(r->data[i]));} for (auto & t : m) {s += t + ";";}}
    return s;
  }
  void fini(rcutils_allocator_t * al)
  {
    if (ei.info_array) {(void)!rmw_topic_endpoint_info_array_fini(&ei, al);}
    if (nt.names.data && nt.types) {(void)!rmw_names_and_types_fini(&nt);}
    (void)!rcutils_string_array_fini(&a); (void)!rcutils_string_array_fini(&b); (void)!rcutils_string_array_fini(&c);
  }
};
static rmw_ret_t do_query(GraphCache & gc, int q, const std::string & topic, const NodeName & n, Dem dt, Dem dy, rcutils_allocator_t * al, QOut & o)
{
  switch (q) {
    case Q_WINFO: return gc.get_writers_info_by_topic(topic, dy, al, &o.ei);
    case Q_RINFO: return gc.get_readers_info_by_topic(topic, dy, al, &o.ei);
    case Q_NT: return gc.get_names_and_types(dt, dy, al, &o.nt);
    case Q_WNODE: return gc.get_writer_names_and_types_by_node(n.name, n.ns, dt, dy, al, &o.nt);
    case Q_RNODE: return gc.get_reader_names_and_types_by_node(n.name, n.ns, dt, dy, al, &o.nt);
    case Q_NODES3: return gc.get_node_names(&o.a, &o.b, &o.c, al);
    default: return gc.get_node_names(&o.a, &o.b, nullptr, al);
  }
}
// graph shapes: number of writers, readers on the queried topic (0..3), distinct types, nodes, participants
struct Shape {int w, r, types, nodes, parts;};
static std::vector<Shape> g_shapes;
static void make_shapes(bool th)
{
  for (int w = 0; w <= (th ? 4 : 3); ++w) {
    for (int r = 0; r <= (th ? 4 : 3); ++r) {
      for (int t = 1; t <= 3; ++t) {
        for (int n = 0; n <= (th ? 3 : 2); ++n) {for (int p = 1; p <= 2; ++p) {g_shapes.push_back({w, r, t, n, p});}}
      }
    }
  }
  // larger ones: many endpoints, types of one topic, topics, nodes
  for (Shape s : {Shape{9, 0, 1, 1, 1}, Shape{0, 17, 1, 1, 2}, Shape{9, 8, 9, 1, 1}, Shape{17, 17, 17, 2, 2}, Shape{1, 1, 1, 9, 2}, Shape{2, 0, 2, 17, 1}, Shape{12, 12, -12, 2, 1}, Shape{17, 3, -17, 5, 2}}) {g_shapes.push_back(s);}
}
static Pools shape_pools()
{
  Pools P = default_pools();
  P.gid.clear(); for (int i = 0; i < 64; ++i) {P.gid.push_back(mkgid(0x40, static_cast<uint8_t>(i)));}
  // long names force heap strings inside the implementation
  P.topic = {"rt/a_topic_with_a_rather_long_name_1", "rt/a_topic_with_a_rather_long_name_2"};
  P.type = {"pkg::dds_::A_rather_long_type_name_number_1", "pkg::dds_::A_rather_long_type_name_number_2"};
  P.node = {{"node_with_a_rather_long_name_0", "/namespace_with_a_rather_long_name"}, {"node_with_a_rather_long_name_1", "/namespace_with_a_rather_long_name"}, {"n2", "/"}};
  P.enclave = {"/enclave_with_a_rather_long_name_1", "/e"};
  P.qtopic = P.topic; P.qnode = P.node;
  for (int i = 2; i < 17; ++i) {P.topic.push_back(fmt("rt/a_topic_with_a_rather_long_name_%d", i + 1)); P.type.push_back(fmt("pkg::dds_::A_rather_long_type_name_number_%d", i + 1));}
  for (int i = 3; i < 17; ++i) {P.node.push_back({fmt("node_with_a_rather_long_name_%d", i), i % 2 ? "/" : "/namespace_with_a_rather_long_name"});}
  return P;
}
static void build_shape(const Pools & P, const Shape & s, GraphCache & gc, Model & m)
{
  Pools Q = P;
  auto both = [&](const Op & o) {apply_real(gc, Q, o); apply_model(m, Q, o);};
  // two or three types: two topics; more: on one topic; negative: as many topics as types
  auto topic = [&s](int i) {return s.types < 0 ? i % -s.types : s.types < 4 && s.types > 1 ? i % 2 : 0;};
  int types = s.types < 0 ? -s.types : s.types;
  for (int i = 0; i < s.w; ++i) {both(op_add(false, i, topic(i), i % types, 0, i % s.parts, 0, 0));}
  for (int i = 0; i < s.r; ++i) {both(op_add(true, 32 + i, topic(i), (i + 1) % types, 0, i % s.parts, 0, 0));}
  for (int p = 0; p < s.parts; ++p) {
    both(op_part(p, p));
    std::vector<MNode> v;
    for (int n = 0; n < s.nodes; ++n) {
      std::vector<Gid> r, w; if (n == 0) {for (int i = 0; i < s.r; ++i) {r.push_back(P.gid[32 + i]);} for (int i = 0; i < s.w; ++i) {w.push_back(P.gid[i]);}}
      v.push_back(mknode(P.node[n].ns, P.node[n].name, p == 0 ? r : std::vector<Gid>{}, p == 0 ? w : std::vector<Gid>{}));
    }
    Q.msg.push_back({v}); both(op_update(p, static_cast<int>(Q.msg.size()) - 1));
  }
}
static const char * fault_name(int f)
{
  static const char * n[] = {"allocation", "allocation and all later ones", "library call", "operator new", "demangle_topic throws", "demangle_type throws", "none"};
  return n[f];
}
// case: mode 0, v = {shape, query, fault kind, k}
static std::string describe_fault(const Case & c)
{
  auto & s = g_shapes[c.v[0]];
  return fmt("%s on %d writers %d readers %d types %d nodes x %d participants, fault: %s #%d", qname(c.v[1]), s.w, s.r, s.types, s.nodes, s.parts, fault_name(c.v[2]), c.v[3]);
}
static long g_fault_points = 0;   // points seen in the last fault-free run
static void exec_fault(Ctx & x, const Case & cs)
{
  static const Pools P = shape_pools();
  const Shape & s = g_shapes.at(cs.v[0]); int q = cs.v[1], f = cs.v[2]; long k = cs.v[3];
  GraphCache gc; Model m; build_shape(P, s, gc, m);
  Ledger L; rcutils_allocator_t al = ledger_allocator(&L);
  const std::string & topic = P.topic[0]; const NodeName & node = P.node[0];
  std::string full;   // what the query answers when nothing fails
  {QOut o; rmw_ret_t r = do_query(gc, q, topic, node, identity_dem, identity_dem, &al, o); full = fmt("%d ", r) + o.text(); o.fini(&al);}
  L.count = 0;
  auto out = std::make_unique<QOut>();
  long dcalls = 0;
  auto mk = [&](int kind, const Dem & d) {
      return Dem([&dcalls, kind, f, k, d](const std::string & v) {if (f == kind && dcalls++ == k) {throw DemangleError();} return d(v);});
    };
  Dem dt = mk(4, identity_dem), dy = mk(5, identity_dem);
  if (f == 0 || f == 1) {L.fail_at = k; L.fail_from = f == 1;}
  rcutils_fault_injection_set_count(f == 2 ? k : -1);
  rmw_ret_t ret = RMW_RET_OK; int thrown = 0;
  rmw_reset_error();
  // warm up anything lazily allocated per thread
  g_new_count = 0; g_new_fail = f == 3 ? k : -1;
  long live0 = g_new_live;
  g_new_armed = f == 3 || f == 6;
  try {
    ret = do_query(gc, q, topic, node, dt, dy, &al, *out);
  } catch (const DemangleError &) {
    thrown = 1;
  } catch (const std::bad_alloc &) {
    thrown = 2;
  }
  g_new_armed = false;
  long live1 = g_new_live; long newcount = g_new_count;
  bool fired = f == 0 || f == 1 ? L.failures > 0 : f == 2 ? rcutils_fault_injection_get_count() < 0 : f == 3 ? newcount > k : f == 6 ? false : dcalls > k;
  rcutils_fault_injection_set_count(-1);
  x.transitions++;
  if (f == 6) {g_fault_points = std::max(L.count, newcount);}
  bool node_missing = (q == Q_WNODE || q == Q_RNODE) && s.nodes == 0;
  if (f == 6) {
    if (thrown || ret != (node_missing ? RMW_RET_NODE_NAME_NON_EXISTENT : RMW_RET_OK)) {x.fail(fmt("fault-free query: ret %d thrown %d", ret, thrown)); return;}
  } else if (fired) {
    x.outcome(hx::hash_str(fmt("%d %d %d %d", q, f, ret, thrown)));
    if (thrown == 1 && f < 4) {x.fail("exception from nowhere"); return;}
    if (thrown == 2 && f != 3) {x.fail("std::bad_alloc although no operator new failed"); return;}
    if ((f == 4 || f == 5) && thrown != 1) {x.fail("exception of the demangling function was swallowed"); return;}
    if (!thrown) {
      // success is fine if the query could do without the refused resource (an allocation of no bytes, say)
      if (ret == RMW_RET_OK && f < 4 && fmt("%d ", ret) + out->text() != full) {
        x.fail("query reported success with a partial answer: " + out->text() + " instead of " + full); return;
      }
      if (ret != RMW_RET_OK && (f == 0 || f == 1 || f == 3) && ret != RMW_RET_BAD_ALLOC) {x.fail(fmt("out of memory reported as %d", ret)); return;}
      if (ret == RMW_RET_NODE_NAME_NON_EXISTENT) {x.fail("failure reported as missing node"); return;}
    }
  }
  if (L.bad_free) {x.fail("released something it did not own"); return;}
  if (live1 != live0) {x.fail(fmt("%ld C++ allocations leaked", live1 - live0)); return;}
  // what is still allocated must be reachable from the outputs and released exactly once by their finalizers
  if (ret != RMW_RET_OK && !thrown) {rmw_reset_error();}
  out->fini(&al);
  if (L.bad_free) {x.fail("finalizing the outputs released something twice"); return;}
  if (!L.live.empty()) {x.fail(fmt("%zu allocations leaked", L.live.size())); return;}
  // retry with fresh outputs, then update, then compare everything
  L.fail_at = -1;
  QOut o2; rmw_ret_t r2 = do_query(gc, q, topic, node, identity_dem, identity_dem, &al, o2);
  if (r2 != (node_missing ? RMW_RET_NODE_NAME_NON_EXISTENT : RMW_RET_OK)) {x.fail(fmt("retry after the failure returned %d", r2)); return;}
  o2.fini(&al);
  if (L.bad_free || !L.live.empty()) {x.fail("retry leaked"); return;}
  Observer ob(P, O_ALL & ~O_PRINT); std::string d = ob.compare(gc, m);
  if (!d.empty()) {x.fail("cache changed by the failing query: " + d); return;}
  Op up = op_add(false, 9, 0, 0, 0, 0, 0, 0); apply_real(gc, P, up); apply_model(m, P, up);
  d = ob.compare(gc, m);
  if (!d.empty()) {x.fail("cache unusable after the failing query: " + d); return;}
  x.traces++;
  if (f != 6 && !fired) {x.count("points beyond the last one", 1); g_fault_points = -1;} else if (f != 6) {x.count(std::string("faults injected: ") + fault_name(f), 1);}
}
static void enum_fault(Ctx & x)
{
  for (size_t s = 0; s < g_shapes.size() && !x.stop(); ++s) {
    for (int q = 0; q < NQ && !x.stop(); ++q) {
      if (!x.mine()) {continue;}
      x.states++;
      Case c; c.v = {static_cast<int>(s), q, 6, 0}; x.run(c);
      for (int f = 0; f < 6 && !x.stop(); ++f) {
        for (int k = 0; k < 4000 && !x.stop(); ++k) {
          c.v = {static_cast<int>(s), q, f, k}; g_fault_points = 0; x.run(c);
          if (g_fault_points < 0) {break;}   // the k-th point does not exist any more
        }
      }
    }
  }
}

// ------------------------------------------------------------------ C09 invalid arguments
// case: v = {shape, query, allocator kind, output kind(s)...}
// allocator: 0 valid, 1 null, 2 zero, 3..6 one function missing
// output: 0 zero-initialized, 1 missing (null), 2 size set, 3 data set, 4 filled by an earlier successful query, (names&types: 5 only types set)
static const char * akind(int k) {static const char * n[] = {"valid", "null", "zero", "no allocate", "no deallocate", "no reallocate", "no zero_allocate"}; return n[k];}
static std::string describe_inv(const Case & c)
{
  std::string s = fmt("%s on shape %d, allocator %s, outputs", c.v[1] < NQ ? qname(c.v[1]) : (c.v[1] == NQ ? "get_writer_count" : "get_reader_count"), c.v[0], akind(c.v[2]));
  for (size_t i = 3; i < c.v.size(); ++i) {s += fmt(" %d", c.v[i]);}
  return s;
}
static rcutils_allocator_t bad_allocator(int k, Ledger * L)
{
  rcutils_allocator_t a = ledger_allocator(L);
  if (k == 2) {a = rcutils_get_zero_initialized_allocator();}
  if (k == 3) {a.allocate = nullptr;}
  if (k == 4) {a.deallocate = nullptr;}
  if (k == 5) {a.reallocate = nullptr;}
  if (k == 6) {a.zero_allocate = nullptr;}
  return a;
}
static std::string raw(const void * p, size_t n)
{
  return std::string(static_cast<const char *>(p), n);
}
static void exec_inv(Ctx & x, const Case & cs)
{
  static const Pools P = shape_pools();
  const Shape & s = g_shapes.at(cs.v[0]); int q = cs.v[1], ak = cs.v[2];
  GraphCache gc; Model m; build_shape(P, s, gc, m);
  Observer ob(P, O_ALL & ~O_PRINT);
  long calls = 0; gc.set_on_change_callback([&calls]() {calls++;});
  if (q >= NQ) {
    rmw_ret_t r = q == NQ ? gc.get_writer_count(P.topic[0], nullptr) : gc.get_reader_count(P.topic[0], nullptr);
    if (r != RMW_RET_INVALID_ARGUMENT) {x.fail(fmt("count without output returned %d", r)); return;}
  } else {
    Ledger L; rcutils_allocator_t al = bad_allocator(ak, &L); rcutils_allocator_t * pal = ak == 1 ? nullptr : &al;
    Ledger L0; rcutils_allocator_t good = ledger_allocator(&L0);
    long dem = 0; Dem d = [&dem](const std::string & v) {dem++; return v;};
    rmw_ret_t ret; bool bad = ak != 0;
    char * stub[2] = {nullptr, nullptr}; rcutils_string_array_t tstub[1]; memset(tstub, 0, sizeof tstub);
    if (q == Q_NODES3 || q == Q_NODES2) {
      rcutils_string_array_t o[3]; rcutils_string_array_t * po[3];
      for (int i = 0; i < 3; ++i) {
        int ok = cs.v[3 + i]; o[i] = rcutils_get_zero_initialized_string_array(); po[i] = &o[i];
        if (ok == 1) {po[i] = nullptr;}
        if (ok == 2) {o[i].size = 1;}
        if (ok == 3) {o[i].data = stub;}
        if (ok == 4) {(void)!rcutils_string_array_init(&o[i], 2, &good); o[i].data[0] = rcutils_strdup("kept", good);}
        if (ok != 0 && !(i == 2 && ok == 1)) {bad = true;}
      }
      std::string before = raw(o, sizeof o);
      size_t live = L0.live.size();
      ret = gc.get_node_names(po[0], po[1], po[2], pal);
      if (bad) {
        if (raw(o, sizeof o) != before || L0.live.size() != live) {x.fail("rejected query modified its outputs"); return;}
        for (int i = 0; i < 3; ++i) {if (cs.v[3 + i] == 4 && (strcmp(o[i].data[0], "kept") || o[i].data[1])) {x.fail("rejected query modified its outputs"); return;}}
      }
      for (int i = 0; i < 3; ++i) {if (cs.v[3 + i] == 4 || (!bad && po[i])) {(void)!rcutils_string_array_fini(&o[i]);}}
    } else {
      int ok = cs.v[3]; rmw_names_and_types_t o = rmw_get_zero_initialized_names_and_types(); rmw_names_and_types_t * po = &o;
      if (ok == 1) {po = nullptr;}
      if (ok == 2) {o.names.size = 1;}
      if (ok == 3) {o.names.data = stub;}
      if (ok == 4) {(void)!rmw_names_and_types_init(&o, 1, &good); o.names.data[0] = rcutils_strdup("kept", good); (void)!rcutils_string_array_init(&o.types[0], 1, &good);}
      if (ok == 5) {o.types = tstub;}
      if (ok != 0) {bad = true;}
      std::string before = raw(&o, sizeof o); size_t live = L0.live.size();
      NodeName n = P.node[0]; if (cs.v[4]) {n = {"no_such_node", "/"};}
      ret = q == Q_NT ? gc.get_names_and_types(d, d, pal, po) : q == Q_WNODE ? gc.get_writer_names_and_types_by_node(n.name, n.ns, d, d, pal, po) :
        gc.get_reader_names_and_types_by_node(n.name, n.ns, d, d, pal, po);
      if (bad && (raw(&o, sizeof o) != before || L0.live.size() != live)) {x.fail("rejected query modified its output"); return;}
      if (!bad && q != Q_NT) {
        bool missing = s.nodes == 0 || cs.v[4];
        if (ret != (missing ? RMW_RET_NODE_NAME_NON_EXISTENT : RMW_RET_OK)) {x.fail(fmt("valid query returned %d", ret)); return;}
        if (missing) {ret = RMW_RET_OK; if (raw(&o, sizeof o) != before) {x.fail("query of an unknown node modified its output"); return;}}
      }
      if (ok == 4) {(void)!rmw_names_and_types_fini(&o);} else if (!bad) {(void)!rmw_names_and_types_fini(&o);}
    }
    x.transitions++;
    if (bad) {
      if (ret != RMW_RET_INVALID_ARGUMENT) {x.fail(fmt("invalid arguments: expected %d, got %d", RMW_RET_INVALID_ARGUMENT, ret)); return;}
      if (L.count != 0) {x.fail("rejected query allocated memory"); return;}
    } else if (ret != RMW_RET_OK) {
      x.fail(fmt("valid arguments rejected with %d", ret)); return;
    }
    if (L.bad_free || L0.bad_free || !L.live.empty() || !L0.live.empty()) {x.fail("memory of the outputs mishandled"); return;}
    x.outcome(hx::hash_str(fmt("%d %d %d", q, bad, ret)));
  }
  rmw_reset_error();
  if (calls) {x.fail("query reported a change"); return;}
  std::string dd = ob.compare(gc, m);
  if (!dd.empty()) {x.fail("later queries disturbed: " + dd);}
  x.traces++;
}
static void enum_inv(Ctx & x)
{
  for (size_t s = 0; s < g_shapes.size() && !x.stop(); ++s) {
    if (!x.thorough && s % 3 && s > 8) {continue;}
    for (int q = 0; q <= NQ + 1 && !x.stop(); ++q) {
      if (q == Q_WINFO || q == Q_RINFO) {continue;}
      for (int ak = 0; ak < (q >= NQ ? 1 : 7); ++ak) {
        Case c; c.v = {static_cast<int>(s), q, ak};
        if (q >= NQ) {if (x.mine()) {x.states++; x.run(c);}} else if (q == Q_NODES3 || q == Q_NODES2) {
          if (q == Q_NODES2) {continue;}
          for (int a = 0; a < 5; ++a) {for (int b = 0; b < 5; ++b) {for (int d = 0; d < 5; ++d) {
                if (x.stop()) {return;}
                c.v = {static_cast<int>(s), q, ak, a, b, d}; if (x.mine()) {x.states++; x.run(c);}
              }}}
        } else {
          for (int a = 0; a < 6; ++a) {for (int n = 0; n < 2; ++n) {c.v = {static_cast<int>(s), q, ak, a, n}; if (x.mine()) {x.states++; x.run(c);}}}
        }
      }
    }
  }
}

// ------------------------------------------------------------------ C27: updates cut short by an exception
// mode 0: {shape, fault, k, how, history..., op}; the last operation is the one that fails
enum Fault {F_NEW, F_NEW_FROM, F_CB_STD, F_CB_INT, NFAULT};
static const char * FAULTN[] = {"allocation %ld fails", "allocations from %ld on fail", "the change callback throws an exception", "the change callback throws an int"};
static Cfg g_xc;
static std::vector<std::vector<int>> g_xbase;
static bool g_x_hit;
struct CbError : std::exception {};
static bool partial_ok(const Op & o) {return o.k == UPDATE || o.k == ADD_PART;}
static std::string x_case(const Case & cs)
{
  const Cfg & c = g_xc;
  auto fresh = std::make_unique<Session>(c); Session & s = *fresh; g_x_hit = false;
  for (int i : g_xbase.at(static_cast<size_t>(cs.v[0]))) {std::string d = s.step(c.al[static_cast<size_t>(i)]); if (!d.empty()) {return d;}}
  for (size_t i = 4; i + 1 < cs.v.size(); ++i) {
    const Op & o = c.al.at(static_cast<size_t>(cs.v[i]));
    if (!op_ok(s.m, c, o)) {return "internal: operation not enabled";}
    std::string d = s.step(o); if (!d.empty()) {return d;}
  }
  const Op & o = c.al.at(static_cast<size_t>(cs.v.back()));
  if (!op_ok(s.m, c, o)) {return "internal: operation not enabled";}
  int f = cs.v[1]; long n = 0; bool hit = false;
  s.gc.set_on_change_callback([&]() {
      n++; if (f >= F_CB_STD && !hit) {hit = true; g_new_armed = false; if (f == F_CB_STD) {throw CbError();} throw 7;}
    });
  Model before = s.m, after = s.m; Effect e = apply_model(after, c.P, o);
  // the call itself, with the arguments made before faults are armed
  RealRet r; bool threw = false, wrong = false;
  {
    Pools & P = const_cast<Pools &>(c.P); rmw_gid_t g = to_rmw(P.gid[static_cast<size_t>(o.gid)]), a = to_rmw(P.part[static_cast<size_t>(o.part)]);
    const std::string t = P.topic[static_cast<size_t>(o.topic)], y = P.type[static_cast<size_t>(o.type)], nn = P.node[static_cast<size_t>(o.node)].name, ns = P.node[static_cast<size_t>(o.node)].ns,
      en = P.enclave[static_cast<size_t>(o.encl)];
    auto h = P.hash[static_cast<size_t>(o.hash)]; auto q = P.qos[static_cast<size_t>(o.qos)]; Msg m;
    if (o.k == UPDATE) {m = make_msg(P.part[static_cast<size_t>(o.part)], P.msg[static_cast<size_t>(o.msg)].nodes);}
    try {
      g_new_count = 0; g_new_fail = cs.v[2]; g_new_from = f == F_NEW_FROM; g_new_hit = false; g_new_armed = f <= F_NEW_FROM;
      switch (o.k) {
        case ADD_W: r.ret = s.gc.add_writer(g, t, y, h, a, q); break;
        case ADD_R: r.ret = s.gc.add_reader(g, t, y, h, a, q); break;
        case REM_W: r.ret = s.gc.remove_writer(g); break;
        case REM_R: r.ret = s.gc.remove_reader(g); break;
        case ADD_PART: s.gc.add_participant(a, en); break;
        case REM_PART: r.ret = s.gc.remove_participant(a); break;
        case UPDATE: s.gc.update_participant_entities(m); break;
        case ADD_NODE: r.msg = s.gc.add_node(a, nn, ns); break;
        case REM_NODE: r.msg = s.gc.remove_node(a, nn, ns); break;
        case AS_W: r.msg = s.gc.associate_writer(g, a, nn, ns); break;
        case DI_W: r.msg = s.gc.dissociate_writer(g, a, nn, ns); break;
        case AS_R: r.msg = s.gc.associate_reader(g, a, nn, ns); break;
        default: r.msg = s.gc.dissociate_reader(g, a, nn, ns); break;
      }
    } catch (const std::bad_alloc &) {threw = true; wrong = f > F_NEW_FROM;} catch (const CbError &) {
      threw = true; wrong = f != F_CB_STD;
    } catch (int) {threw = true; wrong = f != F_CB_INT;}
    g_new_armed = false; g_new_fail = -1;
  }
  if (f <= F_NEW_FROM) {hit = g_new_hit;}
  g_x_hit = hit;
  std::string who = op_str(o) + " (" + (hit ? fmt(FAULTN[f], static_cast<long>(cs.v[2])) : "no fault") + "): ";
  if (threw && !hit) {return who + "threw on its own";}
  if (wrong) {return who + "threw something else";}
  if (f >= F_CB_STD && hit && !threw) {return who + "the exception of the callback did not reach the caller";}
  f = F_NEW;   // the callback only counts from here on
  s.gc.set_on_change_callback([&]() {n++;});
  auto obs = [&](const Model & m) {Observer ob(c.P, O_ALL); auto d = ob.compare(s.gc, m); s.h = s.h * 31 + ob.h; return d;};
  std::string d;
  if (!threw) {
    if (e.has_ret && e.ret != r.ret) {return who + "returned the wrong value";}
    s.m = after; d = obs(s.m);
    if (!d.empty()) {return who + "completed, but " + d;}
  } else if (partial_ok(o)) {
    // the participant concerned may be left incomplete; nothing else may
    if (cs.v[3] == 0) {
      (void)s.gc.remove_participant(to_rmw(c.P.part[static_cast<size_t>(o.part)])); s.m.p.erase(c.P.part[static_cast<size_t>(o.part)]);
      d = obs(s.m); if (!d.empty()) {return who + "failed, and disturbed others: " + d;}
    } else {
      RealRet x = apply_real(s.gc, c.P, o); (void)x; s.m = after;
      d = obs(s.m); if (!d.empty()) {return who + "failed, and repeating it does not help: " + d;}
    }
  } else {
    d = obs(before);
    if (d.empty()) {
      if (cs.v[3] == 1) {RealRet x = apply_real(s.gc, c.P, o); s.m = after; if (e.has_ret && x.ret != e.ret) {return who + "failed, and repeating it returned the wrong value";}}
    } else {
      std::string d2 = obs(after); if (!d2.empty()) {return who + "failed half-way: neither as before (" + d + ") nor as after (" + d2 + ")";}
      s.m = after;
    }
    d = obs(s.m); if (!d.empty()) {return who + "failed, and repeating it does not help: " + d;}
  }
  // everything still works
  long n0 = n; int did = 0;
  for (size_t i = 0; i < c.al.size() && did < 4; ++i) {
    const Op & p = c.al[(i + static_cast<size_t>(cs.v.back()) + 1) % c.al.size()];
    if (!op_ok(s.m, c, p) || p.k == REM_PART) {continue;}
    did++;
    Effect pe = apply_model(s.m, c.P, p); RealRet pr = apply_real(s.gc, c.P, p); n0 += pe.changed;
    if (pe.has_ret && pe.ret != pr.ret) {return who + "later, " + op_str(p) + fmt(" returned %d", pr.ret);}
    if (pe.has_msg) {
      std::string want = gs(c.P.part[static_cast<size_t>(p.part)]) + ":" + nodes_text(s.m.p[c.P.part[static_cast<size_t>(p.part)]].nodes), got = msg_text(pr.msg);
      if (want != got) {return who + "later, " + op_str(p) + ": message expected " + want + " got " + got;}
    }
    if (n != n0) {return who + "later, " + op_str(p) + ": notification missing or duplicated";}
  }
  d = obs(s.m); if (!d.empty()) {return who + "after later operations: " + d;}
  return "";
}
// mode 1: the same for the operations of a context: {base, fault, k, 0, history..., op}
enum {XC_PUB = NFAULT};
static const char * XCN[] = {"add_node", "add_publisher", "add_subscriber", "add_client", "add_service", "remove_publisher", "remove_subscriber", "remove_client", "remove_service", "remove_node"};
constexpr int NXC = 10;
static bool x_legal(const std::vector<int> & h)   // (one node, one endpoint of each kind)
{
  bool node = false, e[4] = {false, false, false, false};
  for (int k : h) {
    if (k == 0) {if (node) {return false;} node = true; continue;}
    if (!node) {return false;}
    if (k == 9) {node = false; for (bool & b : e) {b = false;} continue;}
    if (k <= 4) {if (e[k - 1]) {return false;} e[k - 1] = true;} else {if (!e[k - 5]) {return false;} e[k - 5] = false;}
  }
  return true;
}
struct XWorld
{
  rmw_dds_common::Context cx; rmw_publisher_t pub; Gid part = mkgid(0x10, 1), remote = mkgid(0x10, 2); std::string seen; int fault = -1; bool hit = false; Model m; Pools P;
  XWorld(int base)
  {
    memset(&pub, 0, sizeof pub); cx.gid = to_rmw(part); cx.pub = &pub; cx.sub = nullptr; P = default_pools(); P.part[0] = part; P.part[1] = remote; std_msgs(P);
    cx.publish_callback = [this](const rmw_publisher_t *, const void * msg) -> rmw_ret_t {
        if (fault == XC_PUB && !hit) {hit = true; throw CbError();}
        bool a = g_new_armed; g_new_armed = false; seen = msg_text(*static_cast<const Msg *>(msg)); g_new_armed = a; return RMW_RET_OK;
      };
    cx.graph_cache.add_participant(cx.gid, "/enclave");
    if (base) {for (Op o : {op_part(1, 1), op_update(1, 4), op_add(false, 0, 0, 0, 0, 1, 0, 0), op_add(true, 1, 1, 1, 1, 1, 0, 0)}) {apply_model(m, P, o); (void)apply_real(cx.graph_cache, P, o);}}
  }
  rmw_ret_t apply(int k)
  {
    rmw_gid_t w[4], r[4]; for (int i = 0; i < 4; ++i) {w[i] = to_rmw(mkgid(0x50, static_cast<uint8_t>(i))); r[i] = to_rmw(mkgid(0x60, static_cast<uint8_t>(i)));}
    static const std::string n = "a_local_node_with_a_long_name", ns = "/in/a/long/namespace";
    switch (k) {
      case 0: return cx.add_node_graph(n, ns);
      case 1: return cx.add_publisher_graph(w[0], n, ns);
      case 2: return cx.add_subscriber_graph(r[1], n, ns);
      case 3: return cx.add_client_graph(w[2], r[2], n, ns);
      case 4: return cx.add_service_graph(r[3], w[3], n, ns);
      case 5: return cx.remove_publisher_graph(w[0], n, ns);
      case 6: return cx.remove_subscriber_graph(r[1], n, ns);
      case 7: return cx.remove_client_graph(w[2], r[2], n, ns);
      case 8: return cx.remove_service_graph(r[3], w[3], n, ns);
      default: return cx.remove_node_graph(n, ns);
    }
  }
};
static std::string x_ctx(const Case & cs)
{
  XWorld W(cs.v[0]); int f = cs.v[1]; g_x_hit = false;
  for (size_t i = 4; i + 1 < cs.v.size(); ++i) {if (W.apply(cs.v[i]) != RMW_RET_OK) {return std::string(XCN[cs.v[i]]) + " failed";}}
  if (f == F_CB_STD || f == F_CB_INT) {W.cx.graph_cache.set_on_change_callback([&W, f]() {if (!W.hit) {W.hit = true; if (f == F_CB_STD) {throw CbError();} throw 7;}});}
  W.fault = f; bool threw = false; rmw_ret_t ret = RMW_RET_OK; W.hit = false; g_new_hit = false; (void)to_rmw(W.part);
  try {
    g_new_count = 0; g_new_fail = cs.v[2]; g_new_from = f == F_NEW_FROM; g_new_armed = f <= F_NEW_FROM; ret = W.apply(cs.v.back());
  } catch (...) {threw = true;}
  g_new_armed = false; g_new_fail = -1;
  bool hit = f <= F_NEW_FROM ? g_new_hit : W.hit; g_x_hit = hit; rmw_reset_error();
  std::string who = std::string(XCN[cs.v.back()]) + (f == XC_PUB ? " (the publish callback throws): " : " (" + fmt(FAULTN[f], static_cast<long>(cs.v[2])) + "): ");
  if (!hit) {if (threw || ret != RMW_RET_OK) {return who + "failed on its own";}}
  if (hit && f > F_NEW_FROM && !threw && ret == RMW_RET_OK) {return who + "reported success";}
  W.hit = true; W.cx.graph_cache.clear_on_change_callback();
  // whatever the failed operation left behind, the context goes on: forget the local participant and start it anew
  (void)W.cx.graph_cache.remove_participant(W.cx.gid);
  Observer ob(W.P, O_ALL); std::string d = ob.compare(W.cx.graph_cache, W.m); if (!d.empty()) {return who + "disturbed others: " + d;}
  W.cx.graph_cache.add_participant(W.cx.gid, "/enclave");
  MNode n = mknode("/in/a/long/namespace", "a_local_node_with_a_long_name");
  for (int k : {0, 1, 2, 3, 4, 6, 8, 7, 5}) {
    W.seen.clear(); if (W.apply(k) != RMW_RET_OK) {return who + "later, " + XCN[k] + " failed";}
    Gid w[4], r[4]; for (int i = 0; i < 4; ++i) {w[i] = mkgid(0x50, static_cast<uint8_t>(i)); r[i] = mkgid(0x60, static_cast<uint8_t>(i));}
    auto del = [](std::vector<Gid> & v, const Gid & g) {v.erase(std::remove(v.begin(), v.end(), g), v.end());};
    int i = k ? (k - 1) % 4 : 0; bool hw = i != 1, hr = i != 0;
    if (k >= 1 && k <= 4) {if (hw) {n.w.push_back(w[i]);} if (hr) {n.r.push_back(r[i]);}} else if (k) {if (hw) {del(n.w, w[i]);} if (hr) {del(n.r, r[i]);}}
    std::string want = gs(W.part) + ":" + nodes_text({n});
    if (W.seen != want) {return who + "later, " + XCN[k] + ": announced " + W.seen + " instead of " + want;}
  }
  return "";
}
static void exec_exc(Ctx & x, const Case & cs)
{
  for (int round = 0; round < 2; ++round) {
    long live = g_new_live; std::string d;
    {std::string t = cs.mode ? x_ctx(cs) : x_case(cs); if (!t.empty()) {x.fail(t);}}
    x.transitions++;
    if (x.failed || g_new_live == live) {break;}
    if (round) {x.fail(fmt("%ld blocks of memory lost", g_new_live - live));}
  }
  x.traces++;
  x.outcome(hx::hash_str(fmt("%d %d %d %d %d", cs.mode, cs.v[1], cs.v[2], cs.v.back(), g_x_hit)));
}
static std::string describe_exc(const Case & cs)
{
  std::string s = cs.mode ? "context: " : "graph cache: ";
  if (cs.mode) {
    for (size_t i = 4; i < cs.v.size(); ++i) {s += XCN[cs.v[i]]; s += " ";}
    return s + (cs.v[1] == XC_PUB ? std::string("the publish callback throws") : fmt(FAULTN[cs.v[1]], static_cast<long>(cs.v[2]))) + " in the last one";
  }
  s += fmt("shape %d: ", cs.v[0]); for (size_t i = 4; i < cs.v.size(); ++i) {s += op_str(g_xc.al[static_cast<size_t>(cs.v[i])]) + " ";}
  return s + fmt(FAULTN[cs.v[1]], static_cast<long>(cs.v[2])) + " in the last one";
}
static void enum_exc(Ctx & x)
{
  bool asan = x.variant == "asan"; int depth = x.thorough ? (asan ? 3 : 4) : (asan ? 2 : 3);
  auto faults = [&](Case cs) {   // every fault position, for the history in cs (positions 4..)
      if (!x.mine()) {return;}
      x.states++;
      for (int f = 0; f < (cs.mode ? XC_PUB + 1 : static_cast<int>(NFAULT)) && !x.stop(); ++f) {
        for (int k = 0; k < (f <= F_NEW_FROM ? 100000 : 1) && !x.stop(); ++k) {
          bool hit = false;
          for (int how = 0; how < (cs.mode ? 1 : 2) && !x.stop(); ++how) {
            Case c = cs; c.v[1] = f; c.v[2] = k; c.v[3] = how; x.run(c); hit = hit || g_x_hit;
          }
          if (!hit) {break;}
        }
      }
    };
  for (size_t sh = 0; sh < g_xbase.size(); ++sh) {
    Model base; for (int i : g_xbase[sh]) {apply_model(base, g_xc.P, g_xc.al[static_cast<size_t>(i)]);}
    std::vector<int> pre;
    std::function<void(const Model &, int)> rec = [&](const Model & m, int left) {
        for (size_t i = 0; i < g_xc.al.size() && !x.stop(); ++i) {
          Model n = m; if (!op_ok(n, g_xc, g_xc.al[i])) {continue;}
          apply_model(n, g_xc.P, g_xc.al[i]); pre.push_back(static_cast<int>(i));
          Case cs; cs.v = {static_cast<int>(sh), 0, 0, 0}; cs.v.insert(cs.v.end(), pre.begin(), pre.end()); faults(cs);
          if (left > 1) {rec(n, left - 1);}
          pre.pop_back();
        }
      };
    rec(base, sh == 0 ? depth : depth - 1);
  }
  // contexts
  for (int base = 0; base < 2; ++base) {
    std::vector<int> pre;
    std::function<void(int)> rec = [&](int left) {
        for (int k = 0; k < NXC && !x.stop(); ++k) {
          pre.push_back(k);
          if (x_legal(pre)) {
            Case cs; cs.mode = 1; cs.v = {base, 0, 0, 0}; cs.v.insert(cs.v.end(), pre.begin(), pre.end()); faults(cs);
            if (left > 1) {rec(left - 1);}
          }
          pre.pop_back();
        }
      };
    rec(depth);
  }
}
static void cfg_c27()
{
  Cfg & c = g_xc; c.name = "exceptions"; c.P = default_pools(); std_msgs(c.P); auto & P = c.P; c.mask = O_ALL; c.chk = CK_RET | CK_PRET | CK_MSG; c.node_cap = 3;
  P.topic[1] = "rt/a_topic_with_a_name_longer_than_short_strings"; P.qtopic = {"rt/chat", P.topic[1]}; P.enclave[1] = "/an/enclave/with/a/long/name"; P.node[1] = {"a_node_with_a_rather_long_name", "/and/a/long/namespace"};
  P.qnode = {P.node[0], P.node[1]}; std_msgs(P);
  c.al = {op_part(0, 1), op_update(1, 4), op_node(ADD_NODE, 0, 0), op_node(ADD_NODE, 0, 1), op_add(false, 0, 1, 0, 0, 0, 0, 0), op_add(true, 1, 0, 1, 1, 1, 1, 0), op_assoc(AS_W, 0, 0, 1), op_assoc(AS_R, 1, 0, 0),
    op_update(1, 2), op_rem(false, 0), op_rem(true, 1), op_assoc(DI_W, 0, 0, 1), op_assoc(DI_R, 1, 0, 0), op_node(REM_NODE, 0, 1), op_rempart(0), op_part(1, 0), op_update(0, 0), op_add(true, 0, 1, 1, 0, 0, 1, 0), op_rempart(1)};
  g_xbase = {{0, 1, 2, 3, 4, 5, 6, 7, 17}, {}, {0, 1, 5}};
}

int main(int argc, char ** argv)
{
  return hx::main_impl(argc, argv, [](Ctx & x, hx::Prop & p) {
    bool th = x.thorough;
    p.enumerate = enum_cfgs; p.exec = exec_hist; p.describe = describe_hist;
    if (x.prop == "C01") {cfg_c01(th); cfg_c01_attributes(th);} else if (x.prop == "C02") {cfg_c02(th);} else if (x.prop == "C03") {cfg_c03(th);} else if (x.prop == "C04") {
      cfg_c04(th);
    } else if (x.prop == "C07") {cfg_c07(th);} else if (x.prop == "C26") {cfg_c26(th);} else if (x.prop == "C05") {
      make_facts(th); p.enumerate = enum_orders; p.exec = exec_order; p.describe = describe_order;
    } else if (x.prop == "C06") {
      cfg_c06(th); g_mode_base = 1000; p.enumerate = enum_rep;
      // modes below 1000: replicas; above: message state graph
      p.exec = [](Ctx & c, const Case & cs) {if (cs.mode >= 1000) {Case t = cs; t.mode -= 1000; exec_hist(c, t);} else {exec_rep(c, cs);}};
      p.describe = [](const Case & cs) {if (cs.mode >= 1000) {Case t = cs; t.mode -= 1000; return describe_hist(t);} return describe_rep(cs);};
    } else if (x.prop == "C08") {
      make_shapes(th); p.enumerate = enum_fault; p.exec = exec_fault; p.describe = describe_fault;
    } else if (x.prop == "C27") {
      cfg_c27(); p.enumerate = enum_exc; p.exec = exec_exc; p.describe = describe_exc;
    } else if (x.prop == "C09") {
      make_shapes(th); p.enumerate = enum_inv; p.exec = exec_inv; p.describe = describe_inv;
    } else {return false;}
    return true;
  });
}
