// Exhaustive enumeration of security directory contents, configurations and file-system faults against a
// reference selection model: C24 (selection) and C25 (all-or-nothing under trouble).
// Everything happens in a scratch directory this process creates; faults are injected by interposing the
// libc calls through which the implementation looks at files below that directory.
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/un.h>

#include <map>
#include <set>
#include <unordered_map>

#include "common.hpp"
#include "rmw_dds_common/security.hpp"

using hx::Case;
using hx::Ctx;
using hx::fmt;

// ------------------------------------------------------------------ slots and kinds
static const char * FILES[] = {"identity_ca.cert.p11", "cert.p11", "key.p11", "permissions_ca.cert.p11",
  "identity_ca.cert.pem", "cert.pem", "key.pem", "permissions_ca.cert.pem", "governance.p7s", "permissions.p7s", "crl.pem"};
static const char * ATTR[] = {"IDENTITY_CA", "CERTIFICATE", "PRIVATE_KEY", "PERMISSIONS_CA", "GOVERNANCE", "PERMISSIONS", "CRL"};
constexpr int NF = 11, DISTRACT = 11, NS = 12;

enum {P_ABSENT, P_VALID, P_FILEURI, P_EMPTY, P_BLANK, P_DIR, P_LINK, P_DANGLING, P_LOOP, P_SPACED, P_BARE, P_UPPER, P_NOCOLON, P_SECOND, P_INNER,
  P_LONG, P_CRLF, P_NONL, P_TYPO, P_LINKDIR, P_LINKBAD, P_FF, NP};
enum {R_ABSENT, R_FILE, R_DIR, R_LINK, R_DANGLING, R_LOOP, R_FIFO, R_SOCK, R_EMPTY, R_LINKDIR, R_MODE0, R_LINKFIFO, R_LINKLINK, NR};
static const char * PN[] = {"absent", "valid", "other URI", "empty", "blank", "directory", "link to valid", "dangling link", "link loop", "spaced valid", "bare scheme", "upper case",
  "no colon", "scheme in second word", "scheme inside word", "long", "CRLF", "no newline", "typo", "link to directory", "link to invalid", "form feed separated"};
static const char * RN[] = {"absent", "file", "directory", "link to file", "dangling link", "link loop", "fifo", "socket", "empty file", "link to directory", "file without permissions",
  "link to fifo", "link to link to file"};
// kinds from 1000 on: texts of a systematic table
struct Text {std::string name, text;};
static std::vector<Text> make_texts()
{
  std::vector<Text> t; std::vector<int> len; for (int i = 8; i <= 40; ++i) {len.push_back(i);} for (int p = 64; p <= 65536; p *= 2) {for (int d = -1; d <= 1; ++d) {len.push_back(p + d);}}
  auto word = [](int n) {std::string w = "pkcs11:"; for (int i = 0; static_cast<int>(w.size()) < n; ++i) {w += static_cast<char>('a' + i % 23);} return w;};
  for (int n : len) {
    t.push_back({fmt("word of %d characters", n), word(n) + "\n"}); t.push_back({fmt("word of %d characters alone", n), word(n)});
    t.push_back({fmt("%d blanks first", n), std::string(static_cast<size_t>(n), n % 2 ? ' ' : '\n') + word(30) + " x"});
    t.push_back({fmt("other word of %d characters first", n), std::string(static_cast<size_t>(n), 'w') + " " + word(30) + "\n"});
    t.push_back({fmt("word, then %d more characters", n), word(30) + "\n" + std::string(static_cast<size_t>(n), 'r')});
  }
  for (int b = 1; b < 256; ++b) {
    std::string c(1, static_cast<char>(b));
    t.push_back({fmt("byte %d inside", b), "pkcs11:id=" + c + "rest\n"}); t.push_back({fmt("byte %d first", b), c + "pkcs11:id\n"}); t.push_back({fmt("byte %d at the end", b), "pkcs11:id" + c});
    t.push_back({fmt("byte %d directly after the scheme", b), "pkcs11:" + c + "id"});
    for (int i = 0; i < 7; ++i) {std::string w = "pkcs11:id\n"; w[static_cast<size_t>(i)] = static_cast<char>(b); t.push_back({fmt("byte %d as character %d of the scheme", b, i), w});}
  }
  for (int i = 0; i <= 7; ++i) {std::string w = "pkcs11:"; w.resize(static_cast<size_t>(i)); t.push_back({fmt("first %d characters of the scheme", i), w}); t.push_back({fmt("first %d characters of the scheme and more", i), w + " id=1\n"});}
  return t;
}
static const std::vector<Text> & texts() {static const std::vector<Text> t = make_texts(); return t;}
static std::string p11_content(int slot, int k)
{
  if (k >= 1000) {return texts()[static_cast<size_t>(k - 1000)].text;}
  std::string id = fmt("pkcs11:id=%d;object=o%d", slot, slot);
  switch (k) {
    case P_VALID: case P_LINK: return id + "\n";
    case P_FILEURI: case P_LINKBAD: return fmt("file:/x%d\n", slot);
    case P_BLANK: return " \n\t \n";
    case P_SPACED: return " \n\t" + id + " second word\nthird pkcs11:other\n";
    case P_BARE: return "pkcs11:";
    case P_UPPER: return "PKCS11:id=1\n";
    case P_NOCOLON: return "pkcs11\n";
    case P_SECOND: return "word " + id + "\n";
    case P_INNER: return "x" + id + "\n";
    case P_LONG: return id + std::string(20000, static_cast<char>('a' + slot)) + "\n";
    case P_CRLF: return id + "\r\nnext\r\n";
    case P_NONL: return id + "\xc3\xa9";
    case P_TYPO: return "pkcs1:" + id + "\n";
    case P_FF: return "\f\v" + id + "\fmore";
    default: return "";
  }
}
// what the first word of a .p11 file says; false when unusable
static bool p11_value(int slot, int k, std::string & v)
{
  if (k >= 1000) {
    const std::string & t = texts()[static_cast<size_t>(k - 1000)].text; auto blank = [](char c) {return c == ' ' || (c >= '\t' && c <= '\r');};
    size_t i = 0; while (i < t.size() && blank(t[i])) {i++;} size_t j = i; while (j < t.size() && !blank(t[j])) {j++;}
    v = t.substr(i, j - i); return v.compare(0, 7, "pkcs11:") == 0;
  }
  std::string id = fmt("pkcs11:id=%d;object=o%d", slot, slot);
  switch (k) {
    case P_VALID: case P_LINK: case P_SPACED: case P_CRLF: case P_FF: v = id; return true;
    case P_BARE: v = "pkcs11:"; return true;
    case P_LONG: v = id + std::string(20000, static_cast<char>('a' + slot)); return true;
    case P_NONL: v = id + "\xc3\xa9"; return true;
    default: return false;
  }
}
static bool regular(int k) {return k == R_FILE || k == R_LINK || k == R_EMPTY || k == R_MODE0 || k == R_LINKLINK;}

// ------------------------------------------------------------------ scratch directory
static std::string g_base, g_root;   // absolute
static int g_state[NS];
static std::string slot_path(int s) {return g_root + "/" + FILES[s];}
static void put(const std::string & p, const std::string & c)
{
  FILE * f = fopen(p.c_str(), "w"); if (!f) {_exit(4);}
  fwrite(c.data(), 1, c.size(), f); fclose(f);
}
static void wipe(const std::string & p)
{
  struct stat st; if (lstat(p.c_str(), &st)) {return;}
  if (S_ISDIR(st.st_mode)) {rmdir(p.c_str());} else {unlink(p.c_str());}
}
static void mksock(const std::string & p)
{
  // relative name: the scratch path may be longer than sun_path
  int fd = socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
  char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) {_exit(4);}
  size_t sl = p.rfind('/'); if (chdir(p.substr(0, sl).c_str())) {_exit(4);}
  strncpy(a.sun_path, p.c_str() + sl + 1, sizeof a.sun_path - 1);
  if (fd < 0 || bind(fd, reinterpret_cast<struct sockaddr *>(&a), sizeof a)) {_exit(4);}
  close(fd); if (chdir(cwd)) {_exit(4);}
}
static void set_slot(int s, int k)
{
  if (g_state[s] == k) {return;}
  g_state[s] = k;
  if (s == DISTRACT) {
    const char * d[] = {"governance.p11", "permissions.p11", "crl.p11", "governance.pem", "permissions.pem", "crl.p7s", "IDENTITY_CA.pem", "identity_ca.p11"};
    for (auto n : d) {std::string p = g_root + "/" + n; wipe(p); if (k) {put(p, "pkcs11:distractor\n");}}
    return;
  }
  std::string p = slot_path(s), t = g_base + "/targets/" + FILES[s]; wipe(p); wipe(t); wipe(t + ".2");
  auto ln = [&](const std::string & to) {if (symlink(to.c_str(), p.c_str())) {_exit(4);}};
  if (s < 4) {
    switch (k) {
      case P_ABSENT: break;
      case P_DIR: mkdir(p.c_str(), 0755); break;
      case P_LINK: case P_LINKBAD: put(t, p11_content(s, k)); ln(t); break;
      case P_DANGLING: ln(t + ".none"); break;
      case P_LOOP: ln(p); break;
      case P_LINKDIR: mkdir(t.c_str(), 0755); ln(t); break;
      default: put(p, p11_content(s, k));
    }
  } else {
    switch (k) {
      case R_ABSENT: break;
      case R_DIR: mkdir(p.c_str(), 0755); break;
      case R_LINK: put(t, "x"); ln(t); break;
      case R_DANGLING: ln(t + ".none"); break;
      case R_LOOP: ln(p); break;
      case R_FIFO: if (mkfifo(p.c_str(), 0644)) {_exit(4);} break;
      case R_SOCK: mksock(p); break;
      case R_EMPTY: put(p, ""); break;
      case R_LINKDIR: mkdir(t.c_str(), 0755); ln(t); break;
      case R_MODE0: put(p, "x"); chmod(p.c_str(), 0); break;
      case R_LINKFIFO: if (mkfifo(t.c_str(), 0644)) {_exit(4);} ln(t); break;
      case R_LINKLINK: put(t, "x"); if (symlink(t.c_str(), (t + ".2").c_str())) {_exit(4);} ln(t + ".2"); break;
      default: put(p, "-----BEGIN CERTIFICATE-----\n");
    }
  }
}
static void make_dirs()
{
  const char * e = getenv("HX_SCRATCH"); std::string b = e ? e : "/tmp";
  b += "/sec.XXXXXX"; std::vector<char> t(b.begin(), b.end()); t.push_back(0);
  if (!mkdtemp(t.data())) {_exit(4);}
  g_base = t.data(); g_root = g_base + "/encl ave";
  mkdir(g_root.c_str(), 0755); mkdir((g_base + "/targets").c_str(), 0755); mkdir((g_base + "/empty").c_str(), 0755);
  put(g_base + "/afile", "x");
  std::string dot = g_base + "/link"; if (symlink("encl ave", dot.c_str())) {_exit(4);}
  dot = g_base + "/loop"; if (symlink("loop", dot.c_str())) {_exit(4);}
  mkdir((g_base + "/roots").c_str(), 0755);
  for (int b = 1; b < 256; ++b) {if (b != '/') {std::string l = g_base + "/roots/x" + static_cast<char>(b) + "y"; if (symlink("../encl ave", l.c_str())) {_exit(4);}}}
  if (chdir(g_base.c_str())) {_exit(4);}
}
static void drop_dirs()
{
  for (int i = 0; i < NS; ++i) {set_slot(i, 0);}
  if (chdir("/")) {_exit(4);}
  for (auto n : {"/encl ave", "/targets", "/empty"}) {rmdir((g_base + n).c_str());}
  for (int b = 1; b < 256; ++b) {if (b != '/') {unlink((g_base + "/roots/x" + static_cast<char>(b) + "y").c_str());}}
  rmdir((g_base + "/roots").c_str());
  for (auto n : {"/afile", "/link", "/loop"}) {unlink((g_base + n).c_str());}
  rmdir(g_base.c_str());
}
static std::string snapshot()
{
  std::string s;
  for (auto & d : {g_root, g_base + "/targets", g_base, g_base + "/empty"}) {
    DIR * h = opendir(d.c_str()); std::set<std::string> e;
    if (!h) {s += "?" + d; continue;}
    while (auto x = readdir(h)) {
      std::string n = x->d_name; if (n == "." || n == "..") {continue;}
      struct stat st; memset(&st, 0, sizeof st); lstat((d + "/" + n).c_str(), &st);
      bool dir = S_ISDIR(st.st_mode);
      e.insert(fmt("%s:%o:%lld:%lld.%ld:%llu;", n.c_str(), st.st_mode, dir ? 0ll : static_cast<long long>(st.st_size), dir ? 0ll : static_cast<long long>(st.st_mtim.tv_sec),
        dir ? 0l : st.st_mtim.tv_nsec, static_cast<unsigned long long>(st.st_ino)));
    }
    closedir(h);
    for (auto & x : e) {s += x;}
  }
  return s;
}

// ------------------------------------------------------------------ fault injection
// fault classes: 0 the file cannot be examined at all (every call on it fails), 1 it cannot be opened, 2 reading it fails, 3 reads deliver one byte at a time,
// 5 it can be examined or opened once only; 100+n: reads deliver n bytes in all, then fail (n < 0 never used)
struct Fault {int file, cls, err;};
static const int ERRS[] = {EACCES, ELOOP, ENAMETOOLONG, EIO, ENOMEM, ENOENT, ENOTDIR, EPERM, EOVERFLOW, ESTALE, EMFILE};
constexpr int NERR = 11;   // error index 1000+e is errno e itself
static int err_of(int i) {return i >= 1000 ? i - 1000 : ERRS[i];}
static bool g_armed = false, g_wrote = false;
static std::vector<Fault> g_faults;
static long g_hits = 0, g_points = 0;
static std::map<int, int> g_fd;    // fd -> file
static std::map<int, int> g_reads, g_given, g_looks;   // reads and bytes delivered per descriptor; examinations per file
static unsigned g_readhit = 0;     // files of which a read really failed
static int file_of(const char * path)
{
  if (!path) {return -1;}
  std::string p = path; size_t s = p.rfind('/'); std::string n = s == std::string::npos ? p : p.substr(s + 1);
  for (int i = 0; i < NF; ++i) {if (n == FILES[i]) {return i;}}
  return -1;
}
static int fault_for(const char * path, bool opening)
{
  if (!g_armed) {return 0;}
  int f = file_of(path); if (f < 0) {return 0;}
  g_points++;
  int n = g_looks[f]++;
  for (auto & x : g_faults) {
    if ((x.file == f || x.file == NF) && (x.cls == 0 || (opening && x.cls == 1) || (x.cls == 5 && n > 0))) {g_hits++; return err_of(x.err);}
  }
  return 0;
}
static bool g_busy = false;
template<class F> static F next(const char * n) {return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));}
#define PRE(path, opening) int e_ = fault_for(path, opening); if (e_) {errno = e_; return -1;}
extern "C" {
int stat(const char * p, struct stat * b) noexcept {PRE(p, false) static auto f = next<int (*)(const char *, struct stat *)>("stat"); return f(p, b);}
int lstat(const char * p, struct stat * b) noexcept {PRE(p, false) static auto f = next<int (*)(const char *, struct stat *)>("lstat"); return f(p, b);}
int stat64(const char * p, struct stat64 * b) noexcept {PRE(p, false) static auto f = next<int (*)(const char *, struct stat64 *)>("stat64"); return f(p, b);}
int lstat64(const char * p, struct stat64 * b) noexcept {PRE(p, false) static auto f = next<int (*)(const char *, struct stat64 *)>("lstat64"); return f(p, b);}
int fstatat(int d, const char * p, struct stat * b, int fl) noexcept {PRE(p, false) static auto f = next<int (*)(int, const char *, struct stat *, int)>("fstatat"); return f(d, p, b, fl);}
int fstatat64(int d, const char * p, struct stat64 * b, int fl) noexcept {PRE(p, false) static auto f = next<int (*)(int, const char *, struct stat64 *, int)>("fstatat64"); return f(d, p, b, fl);}
int statx(int d, const char * p, int fl, unsigned m, struct statx * b) noexcept
{
  PRE(p, false) static auto f = next<int (*)(int, const char *, int, unsigned, struct statx *)>("statx"); return f(d, p, fl, m, b);
}
int access(const char * p, int m) noexcept {PRE(p, false) static auto f = next<int (*)(const char *, int)>("access"); return f(p, m);}
int faccessat(int d, const char * p, int m, int fl) noexcept {PRE(p, false) static auto f = next<int (*)(int, const char *, int, int)>("faccessat"); return f(d, p, m, fl);}
char * realpath(const char * p, char * o) noexcept
{
  int e = fault_for(p, false); if (e) {errno = e; return nullptr;}
  static auto f = next<char * (*)(const char *, char *)>("realpath"); return f(p, o);
}
static int opened(int fd, const char * p, int flags)
{
  if (g_armed && !g_busy) {
    if (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND)) {g_wrote = true;}
    if (fd >= 0) {int k = file_of(p); if (k >= 0) {g_fd[fd] = k; g_reads[fd] = 0; g_given[fd] = 0;}}
  }
  return fd;
}
int open(const char * p, int fl, ...)
{
  va_list a; va_start(a, fl); mode_t m = static_cast<mode_t>(va_arg(a, int)); va_end(a); PRE(p, true)
  return opened(static_cast<int>(syscall(SYS_openat, AT_FDCWD, p, fl, m)), p, fl);
}
int open64(const char * p, int fl, ...)
{
  va_list a; va_start(a, fl); mode_t m = static_cast<mode_t>(va_arg(a, int)); va_end(a); PRE(p, true)
  return opened(static_cast<int>(syscall(SYS_openat, AT_FDCWD, p, fl | O_LARGEFILE, m)), p, fl);
}
int openat(int d, const char * p, int fl, ...)
{
  va_list a; va_start(a, fl); mode_t m = static_cast<mode_t>(va_arg(a, int)); va_end(a); PRE(p, true)
  return opened(static_cast<int>(syscall(SYS_openat, d, p, fl, m)), p, fl);
}
static FILE * fo(const char * n, const char * p, const char * m)
{
  int e = fault_for(p, true); if (e) {errno = e; return nullptr;}
  auto f = dlsym(RTLD_NEXT, n); FILE * h = reinterpret_cast<FILE * (*)(const char *, const char *)>(f)(p, m);
  if (g_armed && strpbrk(m, "wa+")) {g_wrote = true;}
  if (h) {opened(fileno(h), p, 0);}
  return h;
}
FILE * fopen(const char * p, const char * m) {return fo("fopen", p, m);}
FILE * fopen64(const char * p, const char * m) {return fo("fopen64", p, m);}
static int read_fault(int fd, size_t & most)
{
  most = 0;
  if (!g_armed) {return 0;}
  auto it = g_fd.find(fd); if (it == g_fd.end()) {return 0;}
  g_points++; g_reads[fd]++;
  for (auto & x : g_faults) {
    if (x.file != it->second && x.file != NF) {continue;}
    if (x.cls == 2 || (x.cls >= 100 && g_given[fd] >= x.cls - 100)) {g_hits++; g_readhit |= 1u << it->second; return err_of(x.err);}
    if (x.cls == 3) {g_hits++; most = 1;}
    if (x.cls >= 100) {most = static_cast<size_t>(x.cls - 100 - g_given[fd]);}
  }
  return 0;
}
static ssize_t given(int fd, ssize_t n) {if (g_armed && n > 0) {auto it = g_given.find(fd); if (it != g_given.end()) {it->second += static_cast<int>(n);}} return n;}
ssize_t read(int fd, void * b, size_t n)
{
  size_t most; int e = read_fault(fd, most); if (e) {errno = e; return -1;}
  return given(fd, syscall(SYS_read, fd, b, most && n > most ? most : n));
}
ssize_t readv(int fd, const struct iovec * v, int c)
{
  size_t most; int e = read_fault(fd, most); if (e) {errno = e; return -1;}
  if (most) {for (int i = 0; i < c; ++i) {if (v[i].iov_len) {return given(fd, syscall(SYS_read, fd, v[i].iov_base, std::min(most, v[i].iov_len)));}}}
  return given(fd, syscall(SYS_readv, fd, v, c));
}
int close(int fd)
{
  if (g_armed) {g_fd.erase(fd); g_reads.erase(fd); g_given.erase(fd);}
  return static_cast<int>(syscall(SYS_close, fd));
}
// nothing below the directory may be changed
#define MUT(name, args, call) \
  int name args noexcept {if (g_armed) {g_wrote = true; errno = EROFS; return -1;} return static_cast<int>(call);}
MUT(rename, (const char * a, const char * b), syscall(SYS_rename, a, b))
MUT(chmod, (const char * a, mode_t m), syscall(SYS_fchmodat, AT_FDCWD, a, m))
MUT(fchmodat, (int d, const char * a, mode_t m, int), syscall(SYS_fchmodat, d, a, m))
MUT(unlinkat, (int d, const char * a, int f), syscall(SYS_unlinkat, d, a, f))
MUT(unlink, (const char * a), syscall(SYS_unlink, a))
MUT(rmdir, (const char * a), syscall(SYS_rmdir, a))
MUT(mkdir, (const char * a, mode_t m), syscall(SYS_mkdir, a, m))
}

// ------------------------------------------------------------------ a case
// v: config (0 no-flag overload, 1 flag false, 2 flag true), prefix, root, initial map, slots[12], faults (file, class, errno)*
static const char * PREFIX[] = {"", "file://", "file:///with space/%s"};
static const char * INIT[] = {"empty map", "unrelated entry", "stale entries", "stale revocation list"};
static std::string root_str(int r);
// prefixes that overlap with the root or with what is looked for; 40 and 41 are given as the same object as the root
constexpr int NOVER = 14;
static std::string prefix_str(int p, int r)
{
  if (p >= 40 && p < 60) {
    std::string root = root_str(r);
    switch (p - 40) {
      case 0: case 1: return root;
      case 2: return root + "/";
      case 3: return root.substr(0, 1);
      case 4: return root.substr(0, root.size() / 2);
      case 5: return root + "/cert.pem";
      case 6: return "pkcs11:";
      case 7: return "file:";
      case 8: return "file:///";
      case 9: return "/";
      case 10: return ".";
      case 11: return "data:,";
      case 12: return " ";
      default: return "\n";
    }
  }
  if (p < 100) {return PREFIX[p];}
  if (p >= 5000) {return std::string("p") + static_cast<char>(p - 5000) + "q";}

  std::string s; for (int i = 0; i < p - 100; ++i) {s += static_cast<char>('A' + i % 25);} return s;
}
constexpr int NPRE = 3, NINIT = 4;
static const char * ROOT[] = {"absolute", "relative", "relative with slash", "absolute with slash", "through a link", "with dots",
  // unusable from here on
  "missing", "not a directory", "empty directory", "empty name", "link loop", "over-long component", "over-long path"};
constexpr int NROOT = 13, GOODROOT = 6;
static std::string root_str(int r)
{
  if (r >= 6000) {return (r % 2 ? g_base + "/roots/x" : std::string("roots/x")) + static_cast<char>((r - 6000) / 2) + "y";}
  if (r >= 50 && r < 60) {static const char * W[] = {"", ".", "./", "../encl ave", "../encl ave/", "./.", "../link/", "../encl ave/../encl ave"}; return W[r - 50];}   // the enclave being the working directory
  if (r >= 100) {std::string s = "encl ave"; while (static_cast<int>(s.size()) + 2 <= r - 100) {s += "/.";} if (static_cast<int>(s.size()) < r - 100) {s += "/";} return s;}
  switch (r) {
    case 0: return g_root;
    case 1: return "encl ave";
    case 2: return "encl ave/";
    case 3: return g_root + "/";
    case 4: return g_base + "/link";
    case 5: return "./encl ave/../encl ave/.";
    case 6: return g_base + "/none";
    case 7: return g_base + "/afile";
    case 8: return g_base + "/empty";
    case 9: return "";
    case 10: return g_base + "/loop";
    case 11: return g_base + "/" + std::string(300, 'n');
    default: {std::string s = g_base; while (s.size() < 6000) {s += "/./encl ave/.."; } return s + "/encl ave";}
  }
}
static Case mk(int conf, int pre, int root, int init, const std::vector<int> & slots)
{
  Case c; c.v = {conf, pre, root, init}; c.v.insert(c.v.end(), slots.begin(), slots.end()); return c;
}
static std::string describe(const Case & c)
{
  std::string s = fmt("%s, prefix '%s', root %s, %s", c.v[0] == 2 ? "PKCS#11" : c.v[0] == 1 ? "no PKCS#11" : "default overload", c.v[1] < 100 ? prefix_str(c.v[1], c.v[2]).c_str() : c.v[1] >= 5000 ? fmt("p\\x%02xq", c.v[1] - 5000).c_str() : fmt("(%d characters)", c.v[1] - 100).c_str(), c.v[2] < NROOT ? ROOT[c.v[2]] : c.v[2] < 100 || c.v[2] >= 6000 ? ("'" + root_str(c.v[2]) + "'").c_str() : fmt("relative, %d characters", c.v[2] - 100).c_str(), INIT[c.v[3]]);
  for (int i = 0; i < NF; ++i) {s += fmt(", %s %s", FILES[i], i < 4 && c.v[4 + i] >= 1000 ? texts()[static_cast<size_t>(c.v[4 + i] - 1000)].name.c_str() : (i < 4 ? PN : RN)[c.v[4 + i]]);}
  static const char * cn[] = {"cannot be examined", "cannot be opened", "cannot be read", "read byte by byte", "", "examined once only"};
  for (size_t i = 4 + NS; i + 2 < c.v.size(); i += 3) {s += fmt("; %s %s (%s)", c.v[i] == NF ? "every file" : FILES[c.v[i]], c.v[i + 1] >= 100 ? fmt("fails to be read after %d bytes", c.v[i + 1] - 100).c_str() : cn[c.v[i + 1]], strerrorname_np(err_of(c.v[i + 2])));}
  return s;
}
// expected outcome
// read_ok: files whose reads were not reached by the injected fault (buffered stdio reads inside the C library are not)
// late: whether faults that strike only after the first access (classes 5 and 100+) count as making the file unusable
static bool model(const Case & c, std::map<std::string, std::string> & out, unsigned read_ok, bool late)
{
  out.clear();
  bool pk = c.v[0] == 2; std::string root = root_str(c.v[2]), pre = prefix_str(c.v[1], c.v[2]);
  if (c.v[2] >= GOODROOT && c.v[2] < NROOT) {return false;}
  auto faulty = [&](int f, int maxcls) {
      for (size_t i = 4 + NS; i + 2 < c.v.size(); i += 3) {if ((c.v[i] == f || c.v[i] == NF) && (c.v[i + 1] >= 5 ? late : c.v[i + 1] <= maxcls) && !(c.v[i + 1] == 2 && (read_ok >> f & 1))) {return true;}}
      return false;
    };
  auto path = [&](int f) {return root + (root.empty() || root.back() == '/' ? "" : "/") + FILES[f];};
  for (int a = 0; a < 6; ++a) {
    int rf = a < 4 ? a + 4 : a + 4; std::string v;
    if (a < 4 && pk && !faulty(a, 2) && p11_value(a, c.v[4 + a], v)) {out[ATTR[a]] = v; continue;}
    if (regular(c.v[4 + rf]) && !faulty(rf, 0)) {out[ATTR[a]] = pre + path(rf); continue;}
    out.clear(); return false;
  }
  if (regular(c.v[4 + 10]) && !faulty(10, 0)) {out["CRL"] = pre + path(10);}
  return true;
}
static void exec(Ctx & x, const Case & c, bool c24)
{
  if (c.v.size() < 4 + NS) {x.fail("internal: short case"); return;}
  for (int i = 0; i < NS; ++i) {set_slot(i, c.v[4 + i]);}
  std::unordered_map<std::string, std::string> res; std::map<std::string, std::string> want;
  bool ok = model(c, want, 0, true), late = false;
  for (size_t i = 4 + NS; i + 2 < c.v.size(); i += 3) {late = late || c.v[i + 1] >= 5;}
  std::map<std::string, std::string> early; bool ok_early = late ? model(c, early, 0, false) : false;
  if (c24 && !ok && !ok_early) {x.count("combinations without a complete set (left to C25)", 1); return;}
  if (c.v[3] == 1) {res["UNRELATED"] = "kept";}
  if (c.v[3] == 2) {for (int i = 0; i < 6; ++i) {res[ATTR[i]] = fmt("stale%d", i);} res["OTHER"] = "x";}
  if (c.v[3] == 3) {res["CRL"] = "stale";}
  auto init = res;
  g_faults.clear(); for (size_t i = 4 + NS; i + 2 < c.v.size(); i += 3) {g_faults.push_back({c.v[i], c.v[i + 1], c.v[i + 2]});}
  g_hits = g_points = 0; g_readhit = 0; g_wrote = false; g_fd.clear(); g_looks.clear(); g_given.clear();
  std::string before = c24 ? "" : snapshot(), root = root_str(c.v[2]), prefix = prefix_str(c.v[1], c.v[2]), thrown;
  bool r = false, inside = c.v[2] >= 50 && c.v[2] < 60;
  if (inside && chdir(g_root.c_str())) {_exit(4);}
  const std::string & given = c.v[1] == 40 ? root : prefix;
  g_armed = true;
  try {
    r = c.v[0] == 0 ? rmw_dds_common::get_security_files(given, root, res) : rmw_dds_common::get_security_files(c.v[0] == 2, given, root, res);
    g_armed = false;
  } catch (const std::exception & e) {
    g_armed = false; thrown = std::string("exception: ") + e.what();
  } catch (...) {
    g_armed = false; thrown = "exception";
  }
  if (inside && chdir(g_base.c_str())) {_exit(4);}
  x.transitions += g_points; x.traces++;
  if (g_faults.size() && g_hits) {x.count("faults reached", static_cast<uint64_t>(g_hits));}
  if (!thrown.empty()) {x.fail("lookup threw: " + thrown); return;}
  std::string got; for (auto & e : std::map<std::string, std::string>(res.begin(), res.end())) {got += e.first + "=" + e.second.substr(0, 60) + ";";}
  auto judge = [&]() -> std::string {
      if (r != ok) {return fmt("lookup returned %d instead of %d, result ", r, ok) + got;}
      if (!ok) {return res.empty() ? "" : "failed lookup left a result: " + got;}
      for (auto & w : want) {
        auto it = res.find(w.first);
        if (it == res.end()) {return w.first + " is missing, result " + got;}
        if (it->second != w.second) {return w.first + " is '" + it->second.substr(0, 200) + "' instead of '" + w.second.substr(0, 200) + "'";}
      }
      for (auto & e : res) {if (!want.count(e.first) && !init.count(e.first)) {return "unexpected entry " + e.first + "=" + e.second.substr(0, 200);}}
      return "";
    };
  std::string bad = judge();
  if (!bad.empty() && late) {   // a file that fails after the first access may or may not be used, but the answer is one of the two
    auto w0 = want; bool ok0 = ok; want = early; ok = ok_early;
    if (!judge().empty()) {want = w0; ok = ok0;} else {bad.clear();}
  }
  if (!bad.empty() && g_faults.size() && !late) {   // a read fault that did not reach the reader is none
    auto w0 = want; bool ok0 = ok; ok = model(c, want, ~g_readhit, true);
    if (!judge().empty()) {want = w0; ok = ok0;} else {bad.clear(); x.count("read faults not reached", 1);}
  }
  if (!bad.empty()) {x.fail(bad); return;}
  if (!c24) {
    if (g_wrote || snapshot() != before) {x.fail("lookup changed the security directory"); return;}
  }
  if (!ok) {x.outcome(hx::hash_str(fmt("fail %d %d", c.v[0], c.v[2]))); return;}
  std::string o; for (auto & w : want) {o += w.first + (w.second.find("pkcs11:") == 0 ? "P" : "F");}
  x.outcome(hx::hash_str(o + fmt("%d%d%d", c.v[0], c.v[1], c.v[2])));
}

// ------------------------------------------------------------------ enumeration
// all combinations of coarse kinds, in an order that keeps neighbouring cases close; each shard takes a contiguous block of identity/cert kinds
static void coarse(Ctx & x, const std::vector<int> & pk, const std::vector<int> & rk, const std::vector<int> & sk, const std::vector<int> & ck,
  const std::vector<int> & confs)
{
  std::vector<std::vector<int>> dom;
  for (int i = 0; i < 4; ++i) {dom.push_back(pk);}
  for (int i = 0; i < 4; ++i) {dom.push_back(rk);}
  dom.push_back(sk); dom.push_back(sk); dom.push_back(ck);
  // slowest digits first: pairs 0,1 pick the shard
  std::vector<int> order = {0, 4, 1, 5, 2, 6, 3, 7, 8, 9, 10};
  std::vector<size_t> at(NF, 0);
  std::vector<int> dir(NF, 1);
  std::vector<int> slots(NS, 0); slots[DISTRACT] = 1;
  uint64_t block = 0;
  std::function<void(size_t)> rec = [&](size_t d) {
      if (x.stop()) {return;}
      if (d == 4 && static_cast<int>(block++ % static_cast<uint64_t>(x.nshards)) != x.shard) {return;}
      if (d == order.size()) {x.states++; for (int c : confs) {x.run(mk(c, 1, 0, 0, slots));} return;}
      int s = order[d]; auto & v = dom[s];
      // reflected order: walk back and forth so that only one file changes between neighbours
      if (dir[s] > 0) {for (size_t i = 0; i < v.size(); ++i) {slots[s] = v[i]; rec(d + 1);}} else {for (size_t i = v.size(); i-- > 0; ) {slots[s] = v[i]; rec(d + 1);}}
      dir[s] = -dir[s];
    };
  rec(0);
}
static std::vector<int> good(bool p11)
{
  std::vector<int> s(NS, R_FILE); for (int i = 0; i < 4; ++i) {s[i] = p11 ? P_VALID : P_ABSENT;} return s;
}
// every pair of kinds of one attribute, in every configuration
static void fine(Ctx & x)
{
  for (int p11 = 0; p11 < 2; ++p11) {
    for (int a = 0; a < 4; ++a) {
      for (int k = 0; k < NP; ++k) {
        for (int r = 0; r < NR; ++r) {
          if (!x.mine()) {continue;}
          auto s = good(p11); s[a] = k; s[a + 4] = r; s[10] = (k + r) % 2 ? R_FILE : R_ABSENT;
          x.states++;
          for (int conf = 0; conf < 3; ++conf) {
            for (int pre = 0; pre < NPRE; ++pre) {
              for (int root = 0; root < GOODROOT; ++root) {
                for (int i = 0; i < NINIT; ++i) {
                  if (x.stop()) {return;}
                  if (!x.thorough && pre && root && i) {continue;}
                  x.run(mk(conf, pre, root, i, s));
                }
              }
            }
          }
        }
      }
    }
    for (int g = 0; g < NR; ++g) {
      for (int p = 0; p < NR; ++p) {
        for (int c = 0; c < NR; ++c) {
          if (!x.mine()) {continue;}
          auto s = good(p11); s[8] = g; s[9] = p; s[10] = c; x.states++;
          for (int conf = 0; conf < 3; ++conf) {if (x.stop()) {return;} x.run(mk(conf, conf, (g + p + c) % GOODROOT, (g + c) % NINIT, s));}
        }
      }
    }
  }
}
static void faults(Ctx & x)
{
  // base directories: everything both ways, only .pem, only .p11 for one attribute, one attribute incomplete, no revocation list
  std::vector<std::vector<int>> bases;
  bases.push_back(good(true)); bases.push_back(good(false));
  for (int a = 0; a < 4; ++a) {auto s = good(false); s[a] = P_VALID; s[a + 4] = R_ABSENT; bases.push_back(s); s = good(true); s[a] = P_FILEURI; bases.push_back(s);}
  for (int f = 4; f < NF; ++f) {auto s = good(true); s[f] = R_ABSENT; bases.push_back(s);}
  auto legal = [](int f, int cls) {return cls == 0 || f < 4 || f == NF ? (cls != 1 || f != 99) : cls == 1;};
  for (size_t b = 0; b < bases.size(); ++b) {
    for (int conf = 0; conf < 3; ++conf) {
      // one faulty file (or all of them), every class and error
      for (int f = 0; f <= NF; ++f) {
        for (int cls = 0; cls < 4; ++cls) {
          if (!legal(f, cls)) {continue;}
          for (int e = 0; e < NERR; ++e) {
            for (int i = 0; i < NINIT; ++i) {
              if (x.stop()) {return;}
              if (!x.mine()) {continue;}
              Case c = mk(conf, 1, 0, i, bases[b]); c.v.insert(c.v.end(), {f, cls, e}); x.states++; x.run(c);
            }
          }
        }
      }
      // every error number
      if (b < 6) {
        for (int f = 0; f <= NF; ++f) {
          for (int cls = 0; cls < 3; ++cls) {
            if (!legal(f, cls)) {continue;}
            for (int e = 1; e < 134; ++e) {
              if (x.stop()) {return;}
              if (e == EINTR || e == EAGAIN || !strerrorname_np(e) || !x.mine()) {continue;}
              Case c = mk(conf, 1, 0, b % NINIT, bases[b]); c.v.insert(c.v.end(), {f, cls, 1000 + e}); x.states++; x.run(c);
            }
          }
        }
      }
      // one file that fails after the first access, or after some bytes
      for (int f = 0; f < NF; ++f) {
        for (int cls : {5, 101, 103, 106, 107, 108, 109, 110, 112, 115, 120, 130, 140}) {
          if (cls >= 100 && !legal(f, 2)) {continue;}
          for (int e : {0, 3, 5}) {
            if (x.stop()) {return;}
            if (!x.mine()) {continue;}
            Case c = mk(conf, 1, 0, e % NINIT, bases[b]); c.v.insert(c.v.end(), {f, cls, e}); x.states++; x.run(c);
          }
        }
      }
      // two faulty files
      for (int f = 0; f < NF; ++f) {
        for (int g = f + 1; g < NF; ++g) {
          for (int e = 0; e < (x.thorough ? NERR : 2); ++e) {
            for (int e2 = 0; e2 < (x.thorough ? NERR : 1); ++e2) {
              for (int cl = 0; cl < 4; ++cl) {
                if (x.stop()) {return;}
                if (!x.mine()) {continue;}
                int c1 = cl & 1 ? 1 : 0, c2 = cl & 2 ? 1 : 0;
                Case c = mk(conf, 0, 1, 2, bases[b]); c.v.insert(c.v.end(), {f, c1, e, g, c2, e2}); x.states++; x.run(c);
              }
            }
          }
        }
      }
    }
  }
}
static void roots(Ctx & x)
{
  for (int root = 0; root < NROOT; ++root) {
    for (int conf = 0; conf < 3; ++conf) {
      for (int pre = 0; pre < NPRE; ++pre) {
        for (int i = 0; i < NINIT; ++i) {
          for (int p = 0; p < 2; ++p) {
            for (int miss = -1; miss < NF; ++miss) {
              if (x.stop()) {return;}
              if (!x.mine()) {continue;}
              auto s = good(p); if (miss >= 0) {s[miss] = 0;} x.states++; x.run(mk(conf, pre, root, i, s));
            }
          }
        }
      }
    }
  }
}
// every text of the table, in each .p11 file, with and without the .pem file; prefixes and roots of many lengths
static void lengths(Ctx & x)
{
  int n = static_cast<int>(texts().size());
  for (int a = 0; a < 4; ++a) {
    for (int k = 0; k < n; ++k) {
      if (!x.mine()) {continue;}
      for (int r : {R_FILE, R_ABSENT}) {
        if (x.stop()) {return;}
        auto s = good(k % 2); s[a] = 1000 + k; s[a + 4] = r; x.states++; x.run(mk(2, k % 3, k % GOODROOT, k % NINIT, s));
      }
    }
  }
  // roots relative to the enclave (repeated slashes are left open: the path may be normalized); every byte in the root and in the prefix
  std::vector<int> rs = {50, 51, 52, 53, 54, 55, 56, 57}; for (int b = 1; b < 256; ++b) {if (b != '/') {rs.push_back(6000 + 2 * b); rs.push_back(6001 + 2 * b);}}
  for (int rt : rs) {
    for (int p11 = 0; p11 < 2; ++p11) {
      for (int miss = -1; miss < NF; ++miss) {
        if (x.stop()) {return;}
        if (!x.mine() || (rt > 99 && miss >= 0 && miss != rt % NF)) {continue;}
        auto s = good(p11); if (miss >= 0) {s[miss] = 0;} x.states++; for (int conf = 0; conf < 3; ++conf) {x.run(mk(conf, (rt + conf) % NPRE, rt, (rt + miss + 1) % NINIT, s));}
      }
    }
  }
  for (int o = 0; o < NOVER; ++o) {
    for (int root = 0; root < GOODROOT; ++root) {
      for (int conf = 0; conf < 3; ++conf) {
        for (int p11 = 0; p11 < 2; ++p11) {
          if (x.stop()) {return;}
          if (!x.mine()) {continue;}
          x.states++; x.run(mk(conf, 40 + o, root, (o + root) % NINIT, good(p11)));
        }
      }
    }
  }
  for (int b = 0; b < 256; ++b) {if (x.stop()) {return;} if (x.mine()) {x.states++; x.run(mk(b % 3, 5000 + b, b % GOODROOT, b % NINIT, good(b % 2)));}}
  for (int l = 1; l < 4060; l += x.thorough || l < 300 ? 1 : 13) {
    if (x.stop()) {return;}
    if (!x.mine()) {continue;}
    x.states++; x.run(mk(l % 3, 100 + l, l % GOODROOT, l % NINIT, good(l % 2)));
    if (l >= 8) {x.run(mk(l % 3, l % NPRE, 100 + l, l % NINIT, good(l % 2)));}
  }
}
// every non-empty set of missing or unusable required files
static void subsets(Ctx & x)
{
  for (int p = 0; p < 2; ++p) {
    for (int bad : {R_ABSENT, R_DIR, R_LOOP, R_DANGLING}) {
      for (int m = 0; m < 64; ++m) {
        for (int conf = 0; conf < 3; ++conf) {
          for (int i = 0; i < NINIT; ++i) {
            if (x.stop()) {return;}
            if (!x.mine()) {continue;}
            auto s = good(false); for (int a = 0; a < 6; ++a) {if (m >> a & 1) {s[4 + a] = bad; if (a < 4 && p) {s[a] = P_VALID;}}}
            x.states++; x.run(mk(conf, i % NPRE, (m + i) % GOODROOT, i, s));
          }
        }
      }
    }
  }
}

int main(int argc, char ** argv)
{
  make_dirs();
  int rc = hx::main_impl(argc, argv, [](Ctx & x, hx::Prop & p) {
      p.describe = describe;
      bool c24 = x.prop == "C24";
      if (!c24 && x.prop != "C25") {return false;}
      p.exec = [c24](Ctx & c, const Case & cs) {exec(c, cs, c24);};
      p.enumerate = [c24](Ctx & c) {
          bool asan = c.variant == "asan", th = c.thorough;
          if (c24) {
            if (th && !asan) {
              coarse(c, {P_ABSENT, P_VALID, P_FILEURI}, {R_ABSENT, R_FILE, R_LINK}, {R_FILE, R_LINK}, {R_ABSENT, R_FILE, R_DIR}, {0, 1, 2});
            } else if (!asan) {
              coarse(c, {P_ABSENT, P_VALID, P_FILEURI}, {R_ABSENT, R_FILE}, {R_FILE}, {R_ABSENT, R_FILE, R_DIR}, {0, 1, 2});
            }
            fine(c); lengths(c);
            if (!asan) {faults(c);}   // sources that cannot be examined: the next one is used
          } else {
            if (!asan) {coarse(c, {P_ABSENT, P_VALID, P_FILEURI}, {R_ABSENT, R_FILE}, {R_ABSENT, R_FILE}, th ? std::vector<int>{R_ABSENT, R_FILE, R_DIR} : std::vector<int>{R_FILE}, {1, 2});}
            subsets(c); roots(c); fine(c); lengths(c); faults(c);
          }
        };
      return true;
    });
  drop_dirs();
  return rc;
}
