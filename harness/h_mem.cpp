// C30: memory use does not grow with the history: every closed walk of operations (one that ends in the contents it started from),
// repeated with new gids each time, holds no more memory after many rounds than after a few.
#include <fcntl.h>
#include <malloc.h>

#include <iomanip>
#include <sstream>

#include "common.hpp"
#include "graph_model.hpp"
#include "pure_pool.hpp"
#include "rmw_dds_common/context.hpp"

extern "C" {
void * __libc_malloc(size_t); void __libc_free(void *); void * __libc_calloc(size_t, size_t); void * __libc_realloc(void *, size_t); void * __libc_memalign(size_t, size_t);
static long g_blocks, g_bytes;   // what this process holds
static void * got(void * p) {if (p) {g_blocks++; g_bytes += static_cast<long>(malloc_usable_size(p));} return p;}
static void gone(void * p) {if (p) {g_blocks--; g_bytes -= static_cast<long>(malloc_usable_size(p));}}
void * malloc(size_t n) {return got(__libc_malloc(n));}
void free(void * p) {gone(p); __libc_free(p);}
void * calloc(size_t a, size_t b) {return got(__libc_calloc(a, b));}
void * realloc(void * p, size_t n)
{
  if (!p) {return malloc(n);}
  long b = static_cast<long>(malloc_usable_size(p)); void * q = __libc_realloc(p, n);
  if (q) {g_bytes += static_cast<long>(malloc_usable_size(q)) - b;} else if (!n) {g_blocks--; g_bytes -= b;}
  return q;
}
void * memalign(size_t a, size_t n) {return got(__libc_memalign(a, n));}
void * aligned_alloc(size_t a, size_t n) {return got(__libc_memalign(a, n));}
int posix_memalign(void ** p, size_t a, size_t n) {*p = got(__libc_memalign(a, n)); return *p ? 0 : 12;}
}

using namespace gm;  // NOLINT
using Op = gm::Op;
using hx::Case;
using hx::Ctx;

struct Mark {long blocks, bytes;};
static Mark mark() {return {g_blocks, g_bytes};}
// rounds until two marks are equal; growth that goes on over many rounds is a violation
static int open_files() {int n = 0; for (int i = 0; i < 1024; ++i) {n += fcntl(i, F_GETFD) >= 0;} return n;}
static std::string steady(const std::function<void(int)> & round, uint64_t & did, bool files = false)
{
  int i = 0; auto upto = [&](int n) {for (; i < n; ++i) {round(i); did++;} return mark();};
  Mark a = upto(4); int fa = files ? open_files() : 0; Mark b = upto(20); int fb = files ? open_files() : 0;
  if (fb - fa >= 16) {return fmt("open files grow: %d after 4 rounds, %d after 20", fa, fb);}
  if (b.blocks <= a.blocks && b.bytes <= a.bytes) {return "";}
  a = upto(60); b = upto(160); Mark c = upto(400);
  bool bl = b.blocks - a.blocks >= 50 && c.blocks - b.blocks >= 120, by = b.bytes - a.bytes >= 64 && c.bytes - b.bytes >= 128;
  if (!bl && !by) {return "";}
  return fmt("memory grows: %ld blocks of %ld bytes after 60 rounds, %ld of %ld after 160, %ld of %ld after 400", a.blocks, a.bytes, b.blocks, b.bytes, c.blocks, c.bytes);
}

// ------------------------------------------------------------------ graph caches
enum {Q_ALL = 100, Q_FAIL, CB_SET, CB_CLR};
struct World
{
  Pools P; std::vector<std::pair<std::string, Op>> al;
  std::vector<Gid> g0, p0;
  World()
  {
    P = default_pools(); g0 = P.gid; p0 = P.part; P.qtopic = {"rt/chat", "none"}; P.qnode = {{"talker", "/"}, {"nobody", "/"}};
    P.topic[0] = "rt/chat"; P.topic[1] = "rt/a_topic_with_a_long_name_of_its_own"; msgs();
    auto add = [&](Op o) {al.emplace_back(op_str(o), o);};
    add(op_add(false, 0, 0, 0, 0, 0, 0, 0)); add(op_add(true, 0, 1, 1, 1, 1, 1, 2)); add(op_rem(false, 0)); add(op_rem(true, 0, 1)); add(op_add(false, 1, 1, 2, 0, 1, 1, 1)); add(op_rem(false, 1));
    add(op_part(0, 0)); add(op_update(0, 0)); add(op_update(0, 1)); add(op_update(0, 2)); add(op_rempart(0)); add(op_part(1, 1)); add(op_rempart(1)); add(op_node(ADD_NODE, 1, 0)); add(op_node(ADD_NODE, 1, 1));
    add(op_node(REM_NODE, 1, 0)); add(op_node(REM_NODE, 1, 1)); add(op_assoc(AS_W, 0, 1, 0)); add(op_assoc(DI_W, 0, 1, 0)); add(op_assoc(AS_R, 0, 1, 0)); add(op_assoc(DI_R, 0, 1, 0));
    for (const auto & e : {std::pair<const char *, int>("query everything", Q_ALL), std::pair<const char *, int>("failing queries", Q_FAIL), std::pair<const char *, int>("set callback", CB_SET), std::pair<const char *, int>("clear callback", CB_CLR)}) {
      Op o; o.k = QUERY; o.msg = e.second; al.emplace_back(e.first, o);
    }
  }
  void msgs() {P.msg = {{{}}, {{mknode("/", "talker", {P.gid[0]}, {P.gid[1]}), mknode("/ns", "talker")}}, {{mknode("/", "a_node_with_a_long_name_of_its_own", {}, {P.gid[0], P.gid[1]})}}};}
  // new gids for endpoints 0, 1 and participants 0 (remote) and, when it is not part of the fixed contents, 1 (local)
  void rotate(int i, bool local)
  {
    auto r = [i](Gid g) {g[4] = static_cast<uint8_t>(i); g[5] = static_cast<uint8_t>(i >> 8); return g;};
    P.gid[0] = r(g0[0]); P.gid[1] = r(g0[1]); P.part[0] = r(p0[0]); if (local) {P.part[1] = r(p0[1]);}
    msgs();
  }
};
static World & world() {static World w; return w;}
static void queries(const GraphCache & gc, const Pools & P, rcutils_allocator_t & al)
{
  size_t n; (void)gc.get_writer_count("rt/chat", &n); (void)gc.get_reader_count("none", &n); (void)gc.get_number_of_nodes();
  for (int r = 0; r < 2; ++r) {
    for (auto & t : P.qtopic) {
      auto a = rmw_get_zero_initialized_topic_endpoint_info_array();
      rmw_ret_t k = r ? gc.get_readers_info_by_topic(t, identity_dem, &al, &a) : gc.get_writers_info_by_topic(t, ros_dem_type, &al, &a);
      if (k == RMW_RET_OK) {(void)!rmw_topic_endpoint_info_array_fini(&a, &al);}
      rmw_reset_error(); rcutils_reset_error();
    }
    for (auto & q : P.qnode) {
      auto nt = rmw_get_zero_initialized_names_and_types();
      rmw_ret_t k = r ? gc.get_reader_names_and_types_by_node(q.name, q.ns, identity_dem, identity_dem, &al, &nt) : gc.get_writer_names_and_types_by_node(q.name, q.ns, ros_dem_topic, ros_dem_type, &al, &nt);
      if (k == RMW_RET_OK) {(void)!rmw_names_and_types_fini(&nt);}
      rmw_reset_error(); rcutils_reset_error();
    }
  }
  auto nt = rmw_get_zero_initialized_names_and_types();
  if (gc.get_names_and_types(ros_dem_topic, identity_dem, &al, &nt) == RMW_RET_OK) {(void)!rmw_names_and_types_fini(&nt);}
  auto a = rcutils_get_zero_initialized_string_array(), b = a, c = a;
  if (gc.get_node_names(&a, &b, &c, &al) == RMW_RET_OK) {(void)!rcutils_string_array_fini(&a); (void)!rcutils_string_array_fini(&b); (void)!rcutils_string_array_fini(&c);}
  a = b = rcutils_get_zero_initialized_string_array();
  if (gc.get_node_names(&a, &b, nullptr, &al) == RMW_RET_OK) {(void)!rcutils_string_array_fini(&a); (void)!rcutils_string_array_fini(&b);}
  rmw_reset_error(); rcutils_reset_error();
  std::ostringstream o; o << gc;
}
static void apply(GraphCache & gc, const World & w, int letter, long & calls)
{
  const Op & o = w.al[static_cast<size_t>(letter)].second;
  if (o.k != QUERY) {(void)apply_real(gc, w.P, o); return;}
  auto al = rcutils_get_default_allocator();
  switch (o.msg) {
    case Q_ALL: queries(gc, w.P, al); return;
    case Q_FAIL:
      for (int k = 0; k < 5; ++k) {Ledger L; L.fail_at = k; L.fail_from = true; auto f = ledger_allocator(&L); queries(gc, w.P, f);}
      {
        (void)gc.get_writer_count("rt/chat", nullptr);
        auto thrower = [](const std::string & s) -> std::string {throw s.size();}; auto nt = rmw_get_zero_initialized_names_and_types();
        auto none = rcutils_get_zero_initialized_allocator(); (void)gc.get_names_and_types(identity_dem, identity_dem, &none, &nt); (void)gc.get_names_and_types(identity_dem, identity_dem, &al, nullptr);
        try {(void)gc.get_names_and_types(thrower, identity_dem, &al, &nt);} catch (size_t) {}
        try {(void)gc.get_names_and_types(identity_dem, thrower, &al, &nt);} catch (size_t) {}
        rmw_reset_error(); rcutils_reset_error();
      }
      return;
    case CB_SET: {std::vector<int> some(20); gc.set_on_change_callback([&calls, some]() {calls += static_cast<long>(some.size());}); return;}
    default: gc.clear_on_change_callback(); return;
  }
}
// the fixed contents: nothing, or endpoints, a remote and a local participant
static void base(GraphCache * gc, Model * m, const World & w, int b)
{
  if (!b) {return;}
  for (const Op & o : {op_add(false, 2, 0, 0, 0, 2, 0, 0), op_add(true, 3, 1, 1, 1, 2, 1, 0), op_part(2, 1), op_update(2, 2), op_part(1, 1), op_node(ADD_NODE, 1, 0), op_assoc(AS_R, 3, 1, 0)}) {
    if (gc) {(void)apply_real(*gc, w.P, o);} else {(void)apply_model(*m, w.P, o);}
  }
}
static bool step_ok(Model & m, const World & w, int letter)
{
  const Op & o = w.al[static_cast<size_t>(letter)].second;
  if (o.k == QUERY) {return true;}
  if (!enabled(m, w.P, o)) {return false;}
  if (o.k == ADD_NODE && find_node(m, w.P.part[static_cast<size_t>(o.part)], w.P.node[static_cast<size_t>(o.node)])) {return false;}
  if (o.k == AS_W || o.k == AS_R) {
    MNode * n = find_node(m, w.P.part[static_cast<size_t>(o.part)], w.P.node[static_cast<size_t>(o.node)]); auto & v = o.k == AS_W ? n->w : n->r;
    if (std::find(v.begin(), v.end(), w.P.gid[static_cast<size_t>(o.gid)]) != v.end()) {return false;}
  }
  (void)apply_model(m, w.P, o); return true;
}
// v = {base, letters...}; mode 0: one cache, a closed walk over and over; mode 1: any walk, each round in a new cache
static std::string graph_case(const Case & c, uint64_t & did)
{
  World & w = world(); w.rotate(0, true); long calls = 0; int b = c.v[0];
  if (c.mode == 1) {
    return steady([&](int i) {
        w.rotate(0, true); auto gc = std::make_unique<GraphCache>(); base(gc.get(), nullptr, w, b); w.rotate(i, !b); for (size_t k = 1; k < c.v.size(); ++k) {apply(*gc, w, c.v[k], calls);}
      }, did);
  }
  GraphCache gc; base(&gc, nullptr, w, b);
  return steady([&](int i) {w.rotate(i, !b); for (size_t k = 1; k < c.v.size(); ++k) {apply(gc, w, c.v[k], calls);}}, did);
}
// ------------------------------------------------------------------ contexts
// letters: ten operations, each with the publish callback succeeding (even) or failing (odd)
static const char * XN[] = {"add_node", "add_publisher", "add_subscriber", "add_client", "add_service", "remove_node", "remove_publisher", "remove_subscriber", "remove_client", "remove_service"};
struct CtxState {bool node = false, e[4] = {false, false, false, false};};
static bool ctx_ok(CtxState & s, int letter)
{
  int k = letter / 2; bool fails = letter & 1;
  if (k == 0) {if (s.node) {return false;} s.node = !fails; return true;}
  if (!s.node) {return false;}
  if (k == 5) {s = CtxState(); return true;}
  if (k < 5) {if (s.e[k - 1]) {return false;} s.e[k - 1] = !fails; return true;}
  if (!s.e[k - 6]) {return false;}
  s.e[k - 6] = false; return true;
}
static std::string ctx_case(const Case & c, uint64_t & did)
{
  World & w = world(); w.rotate(0, true); rmw_publisher_t pub; memset(&pub, 0, sizeof pub); bool fails = false;
  auto make = [&]() {
      auto x = std::make_unique<Context>(); x->gid = to_rmw(w.P.part[1]); x->pub = &pub; x->sub = nullptr;
      x->publish_callback = [&fails](const rmw_publisher_t *, const void *) -> rmw_ret_t {return fails ? RMW_RET_ERROR : RMW_RET_OK;};
      x->graph_cache.add_participant(x->gid, "/enclave"); return x;
    };
  std::unique_ptr<Context> x; if (c.mode == 2) {x = make();}
  return steady([&](int i) {
      w.rotate(i, false); if (c.mode == 3) {x = make();}
      static const std::string n = "a_local_node_with_a_long_name", ns = "/in/a/long/namespace";
      rmw_gid_t a = to_rmw(w.P.gid[0]), b = to_rmw(w.P.gid[1]), d = a, e = b; d.data[7] = 1; e.data[7] = 1;
      for (size_t k = 1; k < c.v.size(); ++k) {
        fails = c.v[k] & 1;
        switch (c.v[k] / 2) {
          case 0: (void)x->add_node_graph(n, ns); break;
          case 1: (void)x->add_publisher_graph(a, n, ns); break;
          case 2: (void)x->add_subscriber_graph(b, n, ns); break;
          case 3: (void)x->add_client_graph(d, b, n, ns); break;
          case 4: (void)x->add_service_graph(e, d, n, ns); break;
          case 5: (void)x->remove_node_graph(n, ns); break;
          case 6: (void)x->remove_publisher_graph(a, n, ns); break;
          case 7: (void)x->remove_subscriber_graph(b, n, ns); break;
          case 8: (void)x->remove_client_graph(d, b, n, ns); break;
          default: (void)x->remove_service_graph(e, d, n, ns); break;
        }
      }
      if (c.mode == 3) {x.reset();}
    }, did);
}
// ------------------------------------------------------------------ free functions
static std::string pure_case(const Case & c, uint64_t & did)
{
  return steady([&](int) {for (int k : c.v) {(void)g_pool.at(static_cast<size_t>(k)).f();}}, did, true);
}

static void exec(Ctx & x, const Case & c)
{
  uint64_t did = 0; std::string d = c.mode < 2 ? graph_case(c, did) : c.mode < 4 ? ctx_case(c, did) : pure_case(c, did);
  if (!d.empty()) {x.fail(d);}
  x.transitions += did * c.v.size(); x.traces++; std::string s = c.str(); x.outcome(hx::hash_str(s));
}
static std::string describe(const Case & c)
{
  std::string s = c.mode == 4 ? "each round: " : c.mode == 1 || c.mode == 3 ? "each round, in a new object: " : "each round, in one object: ";
  if (c.mode < 2) {s += c.v[0] ? "(populated) " : "(empty) ";}
  for (size_t i = c.mode == 4 ? 0 : 1; i < c.v.size(); ++i) {
    int k = c.v[i]; s += c.mode < 2 ? world().al[static_cast<size_t>(k)].first : c.mode == 4 ? g_pool[static_cast<size_t>(k)].name : std::string(XN[k / 2]) + (k & 1 ? " (publish fails)" : ""); s += "; ";
  }
  return s;
}
static void enumerate(Ctx & x)
{
  World & w = world(); int nl = static_cast<int>(w.al.size());
  auto run = [&](int mode, const std::vector<int> & v) {Case c; c.mode = mode; c.v = v; x.states++; x.run(c);};
  for (int b = 0; b < 2; ++b) {
    w.rotate(0, true); Model m0; base(nullptr, &m0, w, b); std::string k0 = m0.key(); int depth = x.thorough ? 6 : 4 + !b; std::vector<int> v{b};
    std::function<void(Model &, int)> rec = [&](Model & m, int left) {
        if (x.stop()) {return;}
        if (v.size() == 3 && !x.mine()) {return;}
        if (v.size() > 1 && (v.size() > 2 || x.shard == 0)) {
          bool last = v.size() > 2;
          if (last && m.key() == k0) {run(0, v);}
          if (v.size() <= (x.thorough ? 5u : 4u)) {run(1, v);}
          if (!last && m.key() == k0) {run(0, v);}
        }
        if (!left) {return;}
        for (int l = 0; l < nl; ++l) {
          Model n = m; if (!step_ok(n, w, l)) {continue;}
          v.push_back(l); rec(n, left - 1); v.pop_back(); w.rotate(0, true);
        }
      };
    Model m = m0; rec(m, depth);
  }
  {
    std::vector<int> v{0};
    std::function<void(CtxState, int)> rec = [&](CtxState s, int left) {
        if (x.stop()) {return;}
        if (v.size() > 1) {
          bool empty = !s.node;
          if (x.mine()) {if (empty) {run(2, v);} if (v.size() < 6) {run(3, v);}}
        }
        if (!left) {return;}
        for (int l = 0; l < 20; ++l) {CtxState n = s; if (ctx_ok(n, l)) {v.push_back(l); rec(n, left - 1); v.pop_back();}}
      };
    rec(CtxState(), x.thorough ? 6 : 5);
  }
  if (g_pool.empty()) {make_pool();}
  int n = static_cast<int>(g_pool.size());
  for (int a = 0; a < n && !x.stop(); ++a) {if (x.mine()) {run(4, {a});} for (int b = 0; b < n && !x.stop(); ++b) {if (x.mine()) {run(4, {a, b});}}}
}
int main(int argc, char ** argv)
{
  return hx::main_impl(argc, argv, [](Ctx & x, hx::Prop & p) {
    if (x.prop != "C30") {return false;}
    p.enumerate = enumerate; p.exec = [](Ctx & k, const Case & c) {if (c.mode == 4 && g_pool.empty()) {make_pool();} exec(k, c);};
    p.describe = [](const Case & c) {if (c.mode == 4 && g_pool.empty()) {make_pool();} return describe(c);};
    return true;
  });
}
