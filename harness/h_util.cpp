// C21 type hash in user data, C22 duration clamping, C23 gid utilities: exhaustive enumeration of bounded input
// domains on the real functions.
#include <array>
#include <iomanip>
#include <map>
#include <memory>
#include <ostream>
#include <set>
#include <sstream>

#include "common.hpp"
#include "rcutils/testing/fault_injection.h"
#include "rmw/error_handling.h"
#include "rmw/impl/cpp/key_value.hpp"
#include "rmw/types.h"
#include "rosidl_runtime_c/type_hash.h"
#include "rmw_dds_common/gid_utils.hpp"
#include "rmw_dds_common/msg/gid.hpp"
#include "rmw_dds_common/qos.hpp"
#include "rmw_dds_common/time_utils.hpp"

using hx::Case;
using hx::Ctx;
using hx::fmt;
using namespace rmw_dds_common;  // NOLINT

// ------------------------------------------------------------------ C21
static std::string vis(const std::string & s)
{
  std::string o;
  for (unsigned char c : s) {if (c < 33 || c > 126 || c == '\\') {o += fmt("\\x%02x", c);} else {o += c;}}
  return o;
}
// does the text hold two type-hash keys?  (which of them counts is not specified)
static bool two_keys(const std::string & s)
{
  int n = 0;
  for (size_t p = s.find("typehash="); p != std::string::npos; p = s.find("typehash=", p + 1)) {
    // a key starts at the beginning, after ';', or after one stray character following ';', which rmw skips
    n += p == 0 || s[p - 1] == ';' || (p > 1 && s[p - 2] == ';' && !isalnum(static_cast<unsigned char>(s[p - 1])) && s[p - 1] != '=');
  }
  return n > 1;
}
enum Exp {NOKEY, GOOD, BAD, SKIP};
static Exp expect(const std::string & s, rosidl_type_hash_t & h)
{
  h = rosidl_get_zero_initialized_type_hash();
  // what the keys and values of user data are is defined by rmw's parser
  auto m = rmw::impl::cpp::parse_key_value(std::vector<uint8_t>(s.begin(), s.end()));
  auto it = m.find("typehash");
  if (it == m.end()) {return NOKEY;}
  if (two_keys(s)) {return SKIP;}
  std::string v(it->second.begin(), it->second.end());
  if (v.find('\0') != std::string::npos) {return SKIP;}      // nor what a zero byte inside the value means
  if (v.size() != 71 || v.compare(0, 7, "RIHS01_") != 0) {return BAD;}
  h.version = 1;
  for (int i = 0; i < 64; ++i) {
    char c = v[static_cast<size_t>(7 + i)]; int d;
    if (c >= '0' && c <= '9') {d = c - '0';} else if (c >= 'a' && c <= 'f') {d = c - 'a' + 10;} else if (c >= 'A' && c <= 'F') {d = c - 'A' + 10;} else {return BAD;}
    h.value[i / 2] = static_cast<uint8_t>(i % 2 ? h.value[i / 2] | d : d << 4);
  }
  return GOOD;
}
static bool heq(const rosidl_type_hash_t & a, const rosidl_type_hash_t & b) {return a.version == b.version && !memcmp(a.value, b.value, sizeof a.value);}
static bool parse21(Ctx & x, const std::string & s)
{
  rosidl_type_hash_t h, w;
  Exp e = expect(s, w);
  memset(&h, 0xa5, sizeof h);
  std::unique_ptr<uint8_t[]> heap(new uint8_t[s.size()]);   // exact size, so that reads outside are seen by ASan
  memcpy(heap.get(), s.data(), s.size());
  rmw_ret_t r = parse_type_hash_from_user_data(heap.get(), s.size(), h);
  x.transitions++;
  const char * bad = nullptr;
  if (memcmp(heap.get(), s.data(), s.size())) {bad = "input modified";}
  if (e == NOKEY && (r != RMW_RET_OK || !heq(h, w))) {bad = "no type-hash key: expected success and a cleared hash";}
  if (e == GOOD && (r != RMW_RET_OK || !heq(h, w))) {bad = "well-formed type hash not returned";}
  if (e == BAD && r != RMW_RET_ERROR) {bad = "malformed type hash: expected an error";}
  if (e == SKIP && r != RMW_RET_OK && r != RMW_RET_ERROR) {bad = "unexpected return code";}
  if (r != RMW_RET_OK) {rmw_reset_error();}
  if (bad) {x.fail(fmt("%s (ret %d, version %d) for user data ", bad, r, h.version) + vis(s)); return false;}
  x.outcome(static_cast<uint64_t>(e) * 131 + (e == NOKEY ? 0 : s.size()));
  return true;
}
static const std::string HEX64 = "00112233445566778899aabbccddeeff0f1e2d3c4b5a69788796a5b4c3d2e1f0";
static const std::vector<std::string> & tokens21()
{
  static std::vector<std::string> t = {"typehash", "=", ";", "RIHS01_" + HEX64, std::string(1, '\0'), "a", "RIHS01_", "_", HEX64, "\xff", "RIHS02_" + HEX64, "RIHS01_" + HEX64.substr(1) + "g",
    "RIHS01_" + HEX64.substr(1), "typehas", "TypeHash"};
  return t;
}
static const std::vector<std::string> & pool21()
{
  static std::vector<std::string> p = {"enclave=/;", "a=b;", "securitycontext=/x y;", "typehash2=RIHS01_" + HEX64 + ";", "atypehash=RIHS01_" + HEX64 + ";", "b=typehash=RIHS01_" + HEX64 + ";",
    "typehas=h;", "TYPEHASH=RIHS01_" + HEX64 + ";", "c=x;;;", "d=\xff\x01;", "e==;", "hash=typehash;", std::string("f=\0\0;", 5), "typehashtypehash=1;", "g= x y ;"};
  return p;
}
// modes: 0 token sequences, 1 raw strings with a common first byte, 2 round trip (hash), 3 round trip with other pairs, 4 value mutations, 5 arguments, 6 version
static void exec21(Ctx & x, const Case & c)
{
  std::string s;
  if (c.mode == 0) {
    for (int k : c.v) {s += tokens21()[static_cast<size_t>(k)];}
    parse21(x, s);
  } else if (c.mode == 1) {
    // every string of v[0] bytes over all 256 values (the first one is v[1]) or, v[0] >= 4, over a small alphabet
    static const char al[] = {'t', 'h', '=', ';', 0, '_', 'R'};
    int n = c.v[0];
    if (n <= 3) {
      for (int i = 0; i < (n == 3 ? 65536 : n == 2 ? 256 : 1); ++i) {
        s = std::string(1, static_cast<char>(c.v[1])); if (n > 1) {s += static_cast<char>(i & 255);} if (n > 2) {s += static_cast<char>(i >> 8);}
        if (!parse21(x, s)) {return;}
      }
    } else {
      int tot = 1; for (int i = 1; i < n; ++i) {tot *= 7;}
      for (int i = 0; i < tot; ++i) {
        s = std::string(1, al[c.v[1] % 7]); int a = i; for (int k = 1; k < n; ++k) {s += al[a % 7]; a /= 7;}
        if (!parse21(x, s)) {return;}
      }
    }
  } else if (c.mode == 2 || c.mode == 3) {
    rosidl_type_hash_t h = rosidl_get_zero_initialized_type_hash(), g; h.version = 1;
    int bg = c.v[0], at = c.v[1];
    for (int val = 0; val < (c.mode == 2 ? 256 : 1); ++val) {
      for (int i = 0; i < 32; ++i) {h.value[i] = static_cast<uint8_t>(bg == 0 ? 0 : bg == 1 ? 255 : i * 37 + 11);}
      if (c.mode == 2) {h.value[at] = static_cast<uint8_t>(val); if (c.v[2]) {h.value[(at + c.v[2]) % 32] = static_cast<uint8_t>(~val);}}
      std::string enc = "previous contents";
      rmw_ret_t r = encode_type_hash_for_user_data_qos(h, enc);
      x.transitions++;
      if (r != RMW_RET_OK) {x.fail(fmt("encoding failed: %d", r)); return;}
      rosidl_type_hash_t w;
      if (expect(enc, w) != GOOD || !heq(w, h)) {x.fail("encoded user data does not hold the hash: " + vis(enc)); return;}
      s.clear();
      if (c.mode == 3) {
        // v = bg, -1, number before, pairs..., number after, pairs..., trailer
        size_t i = 2; int nb = c.v[i++]; for (int k = 0; k < nb; ++k) {s += pool21()[static_cast<size_t>(c.v[i++])];}
        s += enc; int na = c.v[i++]; for (int k = 0; k < na; ++k) {s += pool21()[static_cast<size_t>(c.v[i++])];}
        int tr = c.v[i]; if (tr == 1) {s.pop_back();} if (tr >= 2) {s.append(static_cast<size_t>(tr - 1), '\0');}
      } else {s = enc;}
      memset(&g, 0x5a, sizeof g);
      std::unique_ptr<uint8_t[]> heap(new uint8_t[s.size()]); memcpy(heap.get(), s.data(), s.size());
      r = parse_type_hash_from_user_data(heap.get(), s.size(), g);
      x.transitions++;
      if (r != RMW_RET_OK || !heq(g, h)) {x.fail(fmt("parsing back returned %d, version %d from ", r, g.version) + vis(s)); return;}
    }
    x.outcome(c.mode == 2 ? static_cast<uint64_t>(bg * 32 + at) : hx::hash_str(s));
  } else if (c.mode == 4) {
    // one byte of a well-formed pair replaced, dropped or doubled
    std::string base = "typehash=RIHS01_" + HEX64 + ";", ctx = c.v[1] == 1 ? "enclave=/;" : "", post = c.v[1] == 2 ? "a=b;" : "";
    size_t at = static_cast<size_t>(c.v[0]);
    for (int b = 0; b < 256; ++b) {
      s = base; s[at] = static_cast<char>(b); if (!parse21(x, ctx + s + post)) {return;}
      s = base; s.insert(at, 1, static_cast<char>(b)); if (!parse21(x, ctx + s + post)) {return;}
    }
    s = base; s.erase(at, 1); parse21(x, ctx + s + post);
    s = base.substr(0, at); parse21(x, ctx + s + post);
    s = base.substr(at); parse21(x, ctx + s + post);
  } else if (c.mode == 7) {
    // long user data: a pair of v[1] bytes (or many short ones) before or after
    for (int d = -3; d <= 3; ++d) {
      int n = c.v[1] + d; if (n < 3) {continue;}
      std::string f; size_t sz = static_cast<size_t>(n);
      if (c.v[2] == 0) {f = "x=" + std::string(sz - 3, 'y') + ";";} else if (c.v[2] == 1) {
        while (f.size() + 20 < sz) {f += fmt("k%06zu=v;", f.size());} f += "x=" + std::string(sz - f.size() > 3 ? sz - f.size() - 3 : 0, 'z') + ";";
      } else if (c.v[2] == 2) {f = std::string(sz - 3, 'k') + "=v;";} else {f = "x=" + std::string(sz - 3, '\xee') + ";";}
      std::string good = "typehash=RIHS01_" + HEX64 + ";", bad = "typehash=RIHS01_" + HEX64 + "0;";
      for (auto & t : {good, bad, std::string()}) {
        if (!parse21(x, c.v[0] ? f + t : t + f)) {return;}
        if (!parse21(x, f + t + f)) {return;}
      }
      if (c.v[2] == 0 && !parse21(x, "typehash=RIHS01_" + HEX64 + std::string(sz, '0') + ";")) {return;}
    }
  } else if (c.mode == 5) {
    rosidl_type_hash_t h;
    for (size_t n : {static_cast<size_t>(0), static_cast<size_t>(1), static_cast<size_t>(80)}) {
      memset(&h, 7, sizeof h); rmw_ret_t r = parse_type_hash_from_user_data(nullptr, n, h); x.transitions++;
      if (r != RMW_RET_INVALID_ARGUMENT) {x.fail(fmt("null data of size %zu: %d", n, r)); return;}
      rmw_reset_error();
    }
    parse21(x, "");
    for (int ver = 0; ver < 2; ++ver) {
      for (int k = 0; k < 33; ++k) {   // an unset hash, whatever its bytes
        if (ver) {continue;}
        h = rosidl_get_zero_initialized_type_hash(); if (k) {h.value[k - 1] = 0xee;}
        std::string enc = "previous contents"; rmw_ret_t r = encode_type_hash_for_user_data_qos(h, enc); x.transitions++;
        if (r != RMW_RET_OK || !enc.empty()) {x.fail(fmt("unset hash: ret %d, text ", r) + vis(enc)); return;}
        for (auto & p : pool21()) {if (!parse21(x, enc + p)) {return;}}
      }
    }
    // running out of memory while encoding
    h = rosidl_get_zero_initialized_type_hash(); h.version = 1;
    for (int k = 0; k < 8; ++k) {
      std::string enc; rcutils_fault_injection_set_count(k); rmw_ret_t r = encode_type_hash_for_user_data_qos(h, enc);
      bool hit = rcutils_fault_injection_get_count() == -1; rcutils_fault_injection_set_count(-1); x.transitions++;
      rosidl_type_hash_t w; rmw_reset_error();
      if (r == RMW_RET_OK ? expect(enc, w) != GOOD || !heq(w, h) : r != RMW_RET_BAD_ALLOC || !hit) {x.fail(fmt("encoding with failing allocation %d: ret %d", k, r)); return;}
    }
  }
  x.traces++;
}
static void enum21(Ctx & x)
{
  bool asan = x.variant == "asan"; int nt = static_cast<int>(tokens21().size()), np = static_cast<int>(pool21().size());
  auto go = [&](int mode, std::vector<int> v) {if (!x.stop() && x.mine()) {Case c; c.mode = mode; c.v = std::move(v); x.states++; x.run(c);}};
  go(5, {});
  std::function<void(std::vector<int> &, int)> rec = [&](std::vector<int> & v, int left) {
      if (x.stop()) {return;}
      go(0, v); if (!left) {return;}
      for (int k = 0; k < nt; ++k) {v.push_back(k); rec(v, left - 1); v.pop_back();}
    };
  std::vector<int> v; rec(v, asan ? (x.thorough ? 5 : 4) : (x.thorough ? 6 : 5));
  // a complete "typehash=..." start, then everything up to five tokens more
  if (!asan) {for (int a = 0; a < nt; ++a) {std::vector<int> w = {0, 1, a}; rec(w, x.thorough ? 5 : 4);}}
  for (int n = 1; n <= (asan ? 2 : 3); ++n) {for (int b = 0; b < 256; ++b) {go(1, {n, b});}}
  for (int n = 4; n <= (asan ? 5 : x.thorough ? 8 : 7); ++n) {for (int b = 0; b < 7; ++b) {go(1, {n, b});}}
  for (int bg = 0; bg < 3; ++bg) {for (int at = 0; at < 32; ++at) {for (int o = 0; o < (asan ? 1 : 32); ++o) {go(2, {bg, at, o});}}}
  // other pairs before and after
  auto seq = [np](int n, int i) {std::vector<int> r = {n}; for (int k = 0; k < n; ++k) {r.push_back(i % np); i /= np;} return r;};
  int mx = asan && !x.thorough ? 1 : 2;
  for (int nb = 0; nb <= mx; ++nb) {for (int ib = 0; ib < (nb == 0 ? 1 : nb == 1 ? np : np * np); ++ib) {
      for (int na = 0; na <= mx; ++na) {for (int ia = 0; ia < (na == 0 ? 1 : na == 1 ? np : np * np); ++ia) {
          for (int tr = 0; tr < 4; ++tr) {
            std::vector<int> w = {2, -1}; for (int k : seq(nb, ib)) {w.push_back(k);} for (int k : seq(na, ia)) {w.push_back(k);}
            w.push_back(tr); go(3, w);
          }
        }}
    }}
  for (int at = 0; at < 81; ++at) {for (int k = 0; k < 3; ++k) {go(4, {at, k});}}
  for (int p = 8; p <= (x.thorough ? 1 << 20 : 1 << 17); p *= 2) {for (int w = 0; w < 2; ++w) {for (int k = 0; k < 4; ++k) {go(7, {w, p, k}); go(7, {w, p - 84, k});}}}
}
static std::string desc21(const Case & c)
{
  std::string s;
  if (c.mode == 0) {for (int k : c.v) {s += tokens21()[static_cast<size_t>(k)];} return "user data " + vis(s);}
  if (c.mode == 1) {return fmt("every string of %d bytes starting with byte or letter %d", c.v[0], c.v[1]);}
  if (c.mode == 2) {return fmt("round trip of hashes, background %d, all values of byte %d", c.v[0], c.v[1]);}
  if (c.mode == 3) {for (int k : c.v) {s += fmt(" %d", k);} return "round trip with other pairs (hash, -, count, pairs, count, pairs, trailer)" + s;}
  if (c.mode == 7) {return fmt("about %d bytes (kind %d) of other pairs %s the type hash", c.v[1], c.v[2], c.v[0] ? "before" : "after");}
  if (c.mode == 4) {return fmt("byte %d of a well-formed pair replaced, inserted, dropped; cut there", c.v[0]);}
  return "arguments, unset hash, memory";
}

// ------------------------------------------------------------------ C22
static bool one22(Ctx & x, uint64_t s, uint64_t n)
{
  rmw_time_t in = {s, n}, keep = in;
  rmw_time_t out = clamp_rmw_time_to_dds_time(in);
  using U = unsigned __int128;
  const U G = 1000000000u, MAX = static_cast<U>(2147483647u) * G + 999999999u;
  U tot = static_cast<U>(s) * G + n, w = tot < MAX ? tot : MAX;
  x.transitions++;
  if (out.sec != static_cast<uint64_t>(w / G) || out.nsec != static_cast<uint64_t>(w % G) || in.sec != keep.sec || in.nsec != keep.nsec) {
    x.fail(fmt("{%llu s, %llu ns}: got {%llu, %llu} instead of {%llu, %llu}", (unsigned long long)s, (unsigned long long)n, (unsigned long long)out.sec, (unsigned long long)out.nsec,
      (unsigned long long)(w / G), (unsigned long long)(w % G)));
    return false;
  }
  return true;
}
static const std::vector<uint64_t> & secs22(bool th)
{
  static std::vector<uint64_t> v;
  if (v.empty()) {
    std::set<uint64_t> s; uint64_t w = th ? 300 : 60;
    for (uint64_t c : {0ull, 1ull << 8, 1ull << 15, 1ull << 16, 1ull << 30, 1ull << 31, 1ull << 32, 1ull << 33, 3ull << 30, 1ull << 62, 1ull << 63, 9223372036ull, 18446744073ull, 2147483647ull * 2,
      18446744073ull - 2147483647ull, 1ull << 53, 4611686018ull, 1000000000ull})
    {for (uint64_t d = 0; d <= w; ++d) {s.insert(c + d); s.insert(c - d);}}
    for (int b = 0; b < 64; ++b) {s.insert(1ull << b); s.insert((1ull << b) - 1); s.insert(~(1ull << b));}
    v.assign(s.begin(), s.end());
  }
  return v;
}
static const std::vector<uint64_t> & nsecs22(bool th)
{
  static std::vector<uint64_t> v;
  if (v.empty()) {
    std::set<uint64_t> s; uint64_t w = th ? 40 : 12;
    for (uint64_t k : {0ull, 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 4294967297ull, 18446744073ull, 9223372036ull, 1073741824ull, 1000000000ull, 6442450943ull}) {
      for (uint64_t d = 0; d <= w; ++d) {for (uint64_t m : {k + d, k - d}) {
          if (m > 18446744073ull) {continue;}
          for (uint64_t f : {0ull, 1ull, 2ull, 499999999ull, 500000000ull, 999999998ull, 999999999ull}) {
            if (m == 18446744073ull && f > 709551615ull) {continue;}
            s.insert(m * 1000000000ull + f);
          }
        }}
    }
    for (int b = 0; b < 64; ++b) {for (int d = -2; d <= 2; ++d) {s.insert((1ull << b) + static_cast<uint64_t>(d));}}
    v.assign(s.begin(), s.end());
  }
  return v;
}
// mode 0: one value of seconds x all nanoseconds; mode 1: seconds within 64 of the limit minus the whole seconds in nsec: v = {index of nsec}
static void exec22(Ctx & x, const Case & c)
{
  if (c.mode == 0) {
    uint64_t s = secs22(x.thorough)[static_cast<size_t>(c.v[0])];
    for (uint64_t n : nsecs22(x.thorough)) {if (!one22(x, s, n)) {return;}}
    x.outcome(s > 2147483647ull);
  } else {
    uint64_t n = nsecs22(x.thorough)[static_cast<size_t>(c.v[0])], lim = 2147483647ull - n / 1000000000ull;   // wraps on purpose
    for (uint64_t d = 0; d <= 64; ++d) {if (!one22(x, lim + d, n) || !one22(x, lim - d, n)) {return;}}
    x.outcome(2 + c.v[0]);
  }
  x.traces++;
}
static void enum22(Ctx & x)
{
  for (size_t i = 0; i < secs22(x.thorough).size() && !x.stop(); ++i) {
    if (x.variant == "asan" && i % 9 && !x.thorough) {continue;}
    if (x.mine()) {Case c; c.v = {static_cast<int>(i)}; x.states += nsecs22(x.thorough).size(); x.run(c);}
  }
  for (size_t i = 0; i < nsecs22(x.thorough).size() && !x.stop(); ++i) {if (x.mine()) {Case c; c.mode = 1; c.v = {static_cast<int>(i)}; x.states += 130; x.run(c);}}
}
static std::string desc22(const Case & c) {return c.mode ? fmt("seconds around the limit for nanosecond value %d", c.v[0]) : fmt("second value %d x all nanosecond values", c.v[0]);}

// ------------------------------------------------------------------ C23
constexpr int GS = RMW_GID_STORAGE_SIZE;
static const int VALS[] = {0, 1, 15, 16, 127, 128, 254, 255};
static std::vector<rmw_gid_t> & gids23()
{
  static std::vector<rmw_gid_t> v;
  if (v.empty()) {
    auto add = [](int bg, int a, int va, int b, int vb) {
        rmw_gid_t g; memset(&g, 0, sizeof g); memset(g.data, bg, GS); if (a >= 0) {g.data[a] = static_cast<uint8_t>(va);} if (b >= 0) {g.data[b] = static_cast<uint8_t>(vb);}
        v.push_back(g);
      };
    for (int bg : {0, 128, 255}) {add(bg, -1, 0, -1, 0);}
    for (int a = 0; a < GS; ++a) {for (int i = 0; i < 256; ++i) {add(0, a, i, -1, 0);}}
    for (int bg : {0, 128}) {for (int a = 0; a < GS; ++a) {for (int b = a + 1; b < GS; ++b) {for (int va : VALS) {for (int vb : VALS) {add(bg, a, va, b, vb);}}}}}
    for (int r = 0; r < GS; ++r) {rmw_gid_t g; memset(&g, 0, sizeof g); for (int i = 0; i < GS; ++i) {g.data[i] = static_cast<uint8_t>((i + r) * 17);} v.push_back(g);}
  }
  return v;
}
static std::string gstr(const rmw_gid_t & g) {std::string s; for (int i = 0; i < GS; ++i) {s += fmt("%02x", g.data[i]);} return s;}
// mode 0: gid v[0] against a range of all gids; mode 1: all 256^2 values of byte v[0] under prefix v[1]; mode 2: convert and print gid v[0]
static const char * IMPL[] = {nullptr, "rmw_a", "rmw_b"};
static bool pair23(Ctx & x, rmw_gid_t a, rmw_gid_t b)
{
  int w = 0; for (int i = 0; i < GS && !w; ++i) {w = a.data[i] < b.data[i] ? -1 : a.data[i] > b.data[i];}
  int k = static_cast<int>(x.transitions % 9); a.implementation_identifier = IMPL[k % 3]; b.implementation_identifier = IMPL[k / 3];
  Compare_rmw_gid_t lt;
  bool ab = lt(a, b), ba = lt(b, a), eq = a == b, qe = b == a;
  x.transitions++;
  if (ab != (w < 0) || ba != (w > 0) || eq != (w == 0) || qe != eq) {
    x.fail("gids " + gstr(a) + " and " + gstr(b) + fmt(": less %d, greater %d, equal %d/%d", ab, ba, eq, qe)); return false;
  }
  return true;
}
static void exec23(Ctx & x, const Case & c)
{
  auto & G = gids23();
  if (c.mode == 0) {
    const rmw_gid_t & a = G[static_cast<size_t>(c.v[0])];
    for (size_t j = 0; j < G.size(); j += static_cast<size_t>(c.v[1])) {if (!pair23(x, a, G[j])) {return;}}
    x.outcome(hx::hash_str(gstr(a)));
  } else if (c.mode == 1) {
    rmw_gid_t a, b; memset(&a, 0, sizeof a); memset(a.data, c.v[1], GS); b = a;
    // bytes after the deviating one contradict it
    for (int i = 0; i < 65536; ++i) {
      a.data[c.v[0]] = static_cast<uint8_t>(i & 255); b.data[c.v[0]] = static_cast<uint8_t>(i >> 8);
      if (c.v[0] + 1 < GS && c.v[2]) {bool l = a.data[c.v[0]] < b.data[c.v[0]]; a.data[c.v[0] + 1] = l ? 255 : 0; b.data[c.v[0] + 1] = l ? 0 : 255;}
      if (!pair23(x, a, b)) {return;}
    }
    x.outcome(static_cast<uint64_t>(c.v[0] * 1000 + c.v[1] * 2 + c.v[2]));
  } else {
    rmw_gid_t a = G[static_cast<size_t>(c.v[0])]; a.implementation_identifier = IMPL[1];
    rmw_gid_t keep = a;
    struct {uint64_t pre; msg::Gid m; uint64_t post;} M; M.pre = M.post = 0x1234567890abcdefull; for (auto & b : M.m.data) {b = 0x5a;}
    convert_gid_to_msg(&a, &M.m); x.transitions++;
    if (memcmp(&a, &keep, sizeof a) || M.pre != 0x1234567890abcdefull || M.post != M.pre || M.m.data.size() != GS || memcmp(&M.m.data[0], a.data, GS)) {
      x.fail("conversion of " + gstr(a) + " to its message form"); return;
    }
    struct {uint64_t pre; rmw_gid_t g; uint64_t post;} T; T.pre = T.post = 0x1234567890abcdefull;
    memset(T.g.data, 0xa5, GS); T.g.implementation_identifier = IMPL[2];
    auto before = M.m; convert_msg_to_gid(&M.m, &T.g); x.transitions++;
    if (!(M.m == before) || T.pre != 0x1234567890abcdefull || T.post != T.pre || memcmp(T.g.data, a.data, GS) || T.g.implementation_identifier != IMPL[2]) {
      x.fail("conversion of " + gstr(a) + " back from its message form: " + gstr(T.g) + (T.g.implementation_identifier != IMPL[2] ? ", other fields changed" : "")); return;
    }
    for (int st = 0; st < 5; ++st) {
      std::ostringstream o;
      if (st == 1) {o << std::hex;} else if (st == 2) {o << std::oct;} else if (st == 3) {o << std::showbase;} else if (st == 4) {o << std::uppercase << "text " << 12 << " ";}
      size_t skip = o.str().size();
      std::ostream & back = o << a; x.transitions++;
      std::string s = o.str().substr(skip);
      std::vector<std::string> parts(1); for (char ch : s) {if (ch == '.') {parts.emplace_back();} else {parts.back() += ch;}}
      bool ok = &back == &o && parts.size() == static_cast<size_t>(GS);
      for (size_t i = 0; ok && i < parts.size(); ++i) {
        char * e; ok = !parts[i].empty() && isalnum(static_cast<unsigned char>(parts[i][0]));
        ok = ok && strtoul(parts[i].c_str(), &e, 16) == a.data[i] && !*e;
      }
      if (!ok) {x.fail("gid " + gstr(a) + " printed as " + s); return;}
      if (st == 0 || st >= 3) {
        size_t n = o.str().size(); o << 255 << " " << 171;
        if (o.str().substr(n) != "255 171") {x.fail("after printing gid " + gstr(a) + " the number 255 prints as " + o.str().substr(n)); return;}
      }
    }
    x.outcome(hx::hash_str("p" + gstr(a)));
  }
  x.traces++;
}
static void enum23(Ctx & x)
{
  bool asan = x.variant == "asan"; auto & G = gids23();
  auto go = [&](int mode, std::vector<int> v, uint64_t st) {if (!x.stop() && x.mine()) {Case c; c.mode = mode; c.v = std::move(v); x.states += st; x.run(c);}};
  for (size_t i = 0; i < G.size(); ++i) {go(2, {static_cast<int>(i)}, 1);}
  for (int at = 0; at < GS; ++at) {for (int bg : {0, 1, 127, 128, 255}) {for (int t = 0; t < 2; ++t) {if (!asan || bg == 128) {go(1, {at, bg, t}, 65536);}}}}
  int step = asan ? 97 : x.thorough ? 1 : 7;
  for (size_t i = 0; i < G.size(); i += asan ? 7 : 1) {go(0, {static_cast<int>(i), step}, G.size() / static_cast<size_t>(step));}
}
static std::string desc23(const Case & c)
{
  if (c.mode == 0) {return "gid " + gstr(gids23()[static_cast<size_t>(c.v[0])]) + " compared with the pool";}
  if (c.mode == 1) {return fmt("all 256^2 values of byte %d, other bytes %d", c.v[0], c.v[1]);}
  return "conversion and printing of gid " + gstr(gids23()[static_cast<size_t>(c.v[0])]);
}

int main(int argc, char ** argv)
{
  return hx::main_impl(argc, argv, [](Ctx & x, hx::Prop & p) {
    if (x.prop == "C21") {p.enumerate = enum21; p.exec = exec21; p.describe = desc21;} else if (x.prop == "C22") {
      p.enumerate = enum22; p.exec = exec22; p.describe = desc22;
    } else if (x.prop == "C23") {p.enumerate = enum23; p.exec = exec23; p.describe = desc23;} else {return false;}
    return true;
  });
}
