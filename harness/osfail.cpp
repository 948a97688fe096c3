// Failing operating-system and C library calls (P35): every call an operation makes is made to fail in turn, and trees on
// faulty file systems are walked.  The calls are replaced at link time (--wrap) and behave normally unless armed.
#include <dirent.h>
#include <dlfcn.h>
#include <link.h>
#include <sys/stat.h>
#include <cinttypes>
#include <climits>
#include <ctime>

#include "capture.hpp"
#include "mon.hpp"
#include "rcutils/env.h"
#include "rcutils/filesystem.h"
#include "rcutils/format_string.h"
#include "rcutils/logging.h"
#include "rcutils/shared_library.h"
#include "rcutils/snprintf.h"
#include "rcutils/time.h"
#include "rcutils/types/char_array.h"

using namespace mon;

namespace
{
struct Inj
{
  bool on = false;
  std::set<std::string> kinds;
  uint64_t n = 0, at = 0;
  bool forever = false;
  uint64_t hits = 0;
  uint64_t errsel = 0;
  std::string first;                         // kind of the call that failed first
  std::map<std::string, int> paths;          // whatever looks at this path fails
  std::map<std::string, unsigned> listing;   // reading this directory fails after so many entries
  int listing_err = EIO;
} inj;
std::map<DIR *, std::pair<std::string, unsigned>> dirs;

const std::vector<int> & errnos(const std::string & k)
{
  static const std::map<std::string, std::vector<int>> m = {
    {"vsnprintf", {EOVERFLOW, ENOMEM, EILSEQ}}, {"clock_gettime", {EINVAL, EPERM, EFAULT}}, {"opendir", {EACCES, EMFILE, ENFILE, ENOMEM, ENOENT, ENOTDIR}},
    {"readdir", {EIO, EBADF, EOVERFLOW, ENOENT}}, {"mkdir", {EACCES, ENOSPC, EROFS, EDQUOT, EMLINK, EEXIST, ENOENT, ENAMETOOLONG}},
    {"getcwd", {EACCES, ENOENT, ERANGE, ENOMEM}}, {"setenv", {ENOMEM, EINVAL}}, {"unsetenv", {EINVAL, ENOMEM}}, {"localtime_r", {EOVERFLOW, ENOMEM}},
    {"stat", {EACCES, EIO, ENOMEM, ELOOP, ENOENT, EOVERFLOW}}};
  static const std::vector<int> other = {EINVAL, EIO, 0};
  auto it = m.find(k);
  return it == m.end() ? other : it->second;
}
bool hit(const char * kind)
{
  if (!inj.on || !inj.kinds.count(kind)) {return false;}
  ++inj.n;
  if (inj.n == inj.at || (inj.forever && inj.n > inj.at)) {
    ++inj.hits;
    if (inj.first.empty()) {inj.first = kind;}
    auto & e = errnos(kind);
    errno = e[inj.errsel % e.size()];
    return true;
  }
  return false;
}
bool path_fault(const char * p)
{
  if (!inj.on || inj.paths.empty() || !p) {return false;}
  auto it = inj.paths.find(p);
  if (it == inj.paths.end()) {return false;}
  ++inj.hits;
  errno = it->second;
  return true;
}
struct Armed
{
  Armed(std::set<std::string> kinds, uint64_t at, bool forever, uint64_t errsel)
  {
    inj = Inj();
    inj.kinds = std::move(kinds);
    inj.at = at;
    inj.forever = forever;
    inj.errsel = errsel;
    inj.on = true;
  }
  ~Armed() {inj.on = false;}
};
struct Off {bool was = inj.on; Off() {inj.on = false;} ~Off() {inj.on = was;}};
}  // namespace

extern "C" {
int __real_vsnprintf(char *, size_t, const char *, va_list);
int __wrap_vsnprintf(char * b, size_t n, const char * f, va_list ap) {return hit("vsnprintf") ? -1 : __real_vsnprintf(b, n, f, ap);}
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t id, struct timespec * ts) {return hit("clock_gettime") ? -1 : __real_clock_gettime(id, ts);}
struct tm * __real_localtime_r(const time_t *, struct tm *);
struct tm * __wrap_localtime_r(const time_t * t, struct tm * r) {return hit("localtime_r") ? nullptr : __real_localtime_r(t, r);}
size_t __real_strftime(char *, size_t, const char *, const struct tm *);
size_t __wrap_strftime(char * b, size_t n, const char * f, const struct tm * t) {return hit("strftime") ? 0 : __real_strftime(b, n, f, t);}
DIR * __real_opendir(const char *);
DIR * __wrap_opendir(const char * p)
{
  if (hit("opendir") || path_fault(p)) {return nullptr;}
  DIR * d = __real_opendir(p);
  if (d && inj.on) {dirs[d] = {p, 0};}
  return d;
}
struct dirent * __real_readdir(DIR *);
struct dirent * __wrap_readdir(DIR * d)
{
  if (hit("readdir")) {return nullptr;}
  if (inj.on && !inj.listing.empty()) {
    auto it = dirs.find(d);
    if (it != dirs.end()) {
      auto l = inj.listing.find(it->second.first);
      if (l != inj.listing.end() && it->second.second++ >= l->second) {++inj.hits; errno = inj.listing_err; return nullptr;}
    }
  }
  return __real_readdir(d);
}
int __real_stat(const char *, struct stat *);
int __wrap_stat(const char * p, struct stat * s) {return hit("stat") || path_fault(p) ? -1 : __real_stat(p, s);}
int __real_lstat(const char *, struct stat *);
int __wrap_lstat(const char * p, struct stat * s) {return hit("stat") || path_fault(p) ? -1 : __real_lstat(p, s);}
char * __real_getcwd(char *, size_t);
char * __wrap_getcwd(char * b, size_t n) {return hit("getcwd") ? nullptr : __real_getcwd(b, n);}
int __real_mkdir(const char *, mode_t);
int __wrap_mkdir(const char * p, mode_t m) {return hit("mkdir") ? -1 : __real_mkdir(p, m);}
void * __real_dlopen(const char *, int);
void * __wrap_dlopen(const char * p, int f) {return hit("dlopen") ? __real_dlopen("/nowhere/at/all.so", f) : __real_dlopen(p, f);}
int __real_dlinfo(void *, int, void *);
int __wrap_dlinfo(void * h, int r, void * a) {return hit("dlinfo") ? __real_dlinfo(h, 987654, a) : __real_dlinfo(h, r, a);}
int __real_dlclose(void *);
int __wrap_dlclose(void * h) {if (hit("dlclose")) {__real_dlclose(h); return -1;} return __real_dlclose(h);}
int __real_setenv(const char *, const char *, int);
int __wrap_setenv(const char * n, const char * v, int o) {return hit("setenv") ? -1 : __real_setenv(n, v, o);}
int __real_unsetenv(const char *);
int __wrap_unsetenv(const char * n) {return hit("unsetenv") ? -1 : __real_unsetenv(n);}
int __real_setvbuf(FILE *, char *, int, size_t);
int __wrap_setvbuf(FILE * f, char * b, int m, size_t n) {return hit("setvbuf") ? -1 : __real_setvbuf(f, b, m, n);}
}

namespace
{
std::string base()
{
  static std::string b;
  if (b.empty()) {
    b = (run().scratch.empty() ? std::string("/tmp") : run().scratch) + "/os." + std::to_string(getpid());
    if (mkdir(b.c_str(), 0755) != 0 && errno != EEXIST) {perror("mkdir"); exit(3);}
    char r[PATH_MAX];
    if (realpath(b.c_str(), r)) {b = r;}
  }
  return b;
}
void wipe_at(int at, const char * n)
{
  struct stat s;
  if (fstatat(at, n, &s, AT_SYMLINK_NOFOLLOW) != 0) {return;}
  if (S_ISDIR(s.st_mode)) {
    int fd = openat(at, n, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
    if (fd < 0) {return;}
    fchmod(fd, 0700);
    DIR * d = fdopendir(dup(fd));
    std::vector<std::string> names;
    while (struct dirent * e = readdir(d)) {if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {names.push_back(e->d_name);}}
    closedir(d);
    for (auto & x : names) {wipe_at(fd, x.c_str());}
    close(fd);
    unlinkat(at, n, AT_REMOVEDIR);
  } else {unlinkat(at, n, 0);}
}
struct Dir
{
  std::string p;
  Dir() {p = base() + "/c"; wipe_at(AT_FDCWD, p.c_str()); if (mkdir(p.c_str(), 0755) != 0) {perror("mkdir case"); exit(3);}}
  ~Dir() {wipe_at(AT_FDCWD, p.c_str());}
};
size_t open_fds()
{
  Off o;
  size_t n = 0;
  DIR * d = opendir("/proc/self/fd");
  if (!d) {return 0;}
  while (readdir(d)) {++n;}
  closedir(d);
  return n;
}
// a tree: path relative to the root -> size, -1 for a directory, -2 for something else
struct Tree
{
  std::map<std::string, int64_t> e;
  void fill(Rng & g, const std::string & root, const std::string & rel, unsigned depth)
  {
    unsigned n = static_cast<unsigned>(g.range(depth == 1 ? 1 : 0, 5));
    for (unsigned i = 0; i < n; ++i) {
      std::string r = rel + (rel.empty() ? "" : "/") + g.str(g.range(1, 8), "abc._") + std::to_string(i), p = root + "/" + r;
      switch (depth < 4 ? g.below(5) : 2 + g.below(3)) {
        case 0: case 1: mkdir(p.c_str(), 0755); e[r] = -1; fill(g, root, r, depth + 1); break;
        case 2: if (mkfifo(p.c_str(), 0644) == 0) {e[r] = -2;} break;
        default: {
            int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0644);
            if (fd < 0) {break;}
            int64_t k = static_cast<int64_t>(g.size(100000));
            if (ftruncate(fd, k) != 0) {perror("ftruncate"); exit(3);}
            close(fd);
            e[r] = k;
          }
      }
    }
  }
  static unsigned level(const std::string & r) {return 1 + static_cast<unsigned>(std::count(r.begin(), r.end(), '/'));}
  uint64_t sum(size_t depth, const std::string & without = "") const
  {
    uint64_t s = 0;
    for (auto & x : e) {
      bool out = !without.empty() && (x.first == without || x.first.compare(0, without.size() + 1, without + "/") == 0);
      if (x.second > 0 && !out && (depth == 0 || level(x.first) <= depth)) {s += static_cast<uint64_t>(x.second);}
    }
    return s;
  }
};

// ---------------------------------------------------------------- a faulty file system
void faulty_tree(Case & c)
{
  Rng & g = c.rng;
  Dir D;
  CkAlloc A("tree");
  Tree t;
  t.fill(g, D.p, "", 1);
  size_t fds = open_fds();
  for (unsigned round = 0; round < 6; ++round) {
    size_t depth = g.below(5);
    Armed a({}, 0, false, 0);
    std::string bad;                 // what cannot be looked at
    int err = 0;
    bool listed = g.chance(1, 2);
    std::vector<std::string> cand = {""};
    for (auto & x : t.e) {if (!listed || x.second == -1) {cand.push_back(x.first);}}
    bad = g.pick(cand);
    std::string path = bad.empty() ? D.p : D.p + "/" + bad;
    bool expect_error, vanish = false, in_scope;
    unsigned lvl = bad.empty() ? 0 : Tree::level(bad);
    if (listed) {
      err = inj.listing_err = g.pick(std::vector<int>{EIO, EBADF, ENOENT, EOVERFLOW, EACCES});
      inj.listing[path] = static_cast<unsigned>(g.below(5));
      // the directory is read when it is within the depth
      in_scope = depth == 0 || lvl + 1 <= depth;
      size_t have = 2;
      for (auto & x : t.e) {
        size_t s = x.first.rfind('/');
        if ((s == std::string::npos ? std::string() : x.first.substr(0, s)) == bad) {++have;}
      }
      (void)have;                    // the failure replaces the end at the latest
      expect_error = in_scope;
    } else {
      err = g.pick(std::vector<int>{EACCES, EIO, ELOOP, ENOMEM, ENOENT, EOVERFLOW, ENAMETOOLONG});
      inj.paths[path] = err;
      in_scope = depth == 0 || lvl <= depth;
      vanish = err == ENOENT && !bad.empty();
      expect_error = in_scope && !vanish;
    }
    uint64_t got = g.next();
    rcutils_reset_error();
    rcutils_ret_t r;
    uint64_t hits;
    {
      Capture q(stderr, 2);
      Exact e(D.p);
      r = depth == 1 && g.chance(1, 2) ? rcutils_calculate_directory_size(e, &got, A.get()) :
        rcutils_calculate_directory_size_with_recursion(e, depth, &got, A.get());
      hits = inj.hits;
      inj.on = false;
      q.stop();
    }
    tr(fmt("%s of %s fails (%s), depth %zu -> %d", listed ? "reading" : "looking at", show(bad).c_str(), strerror(err), depth, r));
    check_empty(A, "directory size on a faulty file system");
    MON_CHECK(open_fds() == fds, "tree.fds", "descriptors stayed open");
    if (hits == 0) {
      MON_CHECK(r == RCUTILS_RET_OK && got == t.sum(depth), "tree.value", "returned %d, %" PRIu64 " although nothing failed (%" PRIu64 ")", r, got, t.sum(depth));
      count("tree.untouched");
    } else if (expect_error) {
      MON_CHECK(r != RCUTILS_RET_OK, "tree.swallowed", "success (%" PRIu64 " bytes of %" PRIu64 ") although %s %s failed", got, t.sum(depth),
        listed ? "reading" : "looking at", show(bad).c_str());
      count(listed ? "tree.unread" : "tree.unseen");
    } else {
      MON_CHECK(r != RCUTILS_RET_OK || got == t.sum(depth, vanish ? bad : "") || got == t.sum(depth), "tree.value", "%" PRIu64 ", should be %" PRIu64,
        got, t.sum(depth, vanish ? bad : ""));
      count(vanish ? "tree.vanished" : "tree.out-of-depth");
    }
    c.mix(lvl); c.mix(static_cast<uint64_t>(err)); c.mix(depth * 2 + listed);
  }
  // and without faults
  uint64_t got = 0;
  Capture q(stderr, 2);
  rcutils_ret_t r = rcutils_calculate_directory_size_with_recursion(D.p.c_str(), 0, &got, A.get());
  q.stop();
  MON_CHECK(r == RCUTILS_RET_OK && got == t.sum(0), "tree.after", "returned %d, %" PRIu64, r, got);
  c.mix(g.next());
  if (t.e.size() > 4) {c.interesting();}
  if (c.want_sample()) {c.sample(fmt("tree with %zu entries, six faults", t.e.size()));}
}

// Directories an unprivileged user may list but not search: nothing in them can be looked at.
void unsearchable(Case & c)
{
  Rng & g = c.rng;
  Dir D;
  CkAlloc A("unsearchable");
  std::string sub = D.p + "/d", f = sub + "/f";
  mkdir(sub.c_str(), 0755);
  int fd = open(f.c_str(), O_WRONLY | O_CREAT, 0644);
  uint64_t k = 1 + g.below(5000);
  if (fd < 0 || ftruncate(fd, static_cast<off_t>(k)) != 0) {perror("open"); exit(3);}
  close(fd);
  chmod(sub.c_str(), 0744);
  size_t fds = open_fds();
  if (geteuid() != 0 || seteuid(65534) != 0) {return;}
  struct Back {~Back() {if (seteuid(0) != 0) {abort();}}} back;
  struct stat st;
  DIR * probe = opendir(sub.c_str());
  if (probe) {closedir(probe);}
  if (!probe || stat(f.c_str(), &st) == 0) {return;}
  Capture q(stderr, 2);
  uint64_t a = 0, b = 0;
  rcutils_ret_t r = rcutils_calculate_directory_size(sub.c_str(), &a, A.get());
  rcutils_ret_t s = rcutils_calculate_directory_size_with_recursion(D.p.c_str(), g.below(3), &b, A.get());
  q.stop();
  (void)s;
  MON_CHECK(r != RCUTILS_RET_OK, "tree.swallowed", "success (%" PRIu64 " bytes) for a directory whose only file of %" PRIu64 " bytes cannot be looked at", a, k);
  check_empty(A, "unsearchable directory");
  MON_CHECK(open_fds() == fds, "tree.fds", "descriptors stayed open");
  count("tree.unsearchable");
  c.mix(k);
  c.interesting();
}

// ---------------------------------------------------------------- every call of an operation fails in turn
struct Res
{
  bool failed = false;
  std::string out;          // everything the operation produced
  bool reported = true;     // the failure was reported the way the operation reports failures
};
struct Ctx
{
  Rng g;
  CkAlloc A;
  std::string dir;
  explicit Ctx(uint64_t s, const std::string & d) : g(s), A("op"), dir(d) {}
};
struct Op
{
  const char * name;
  std::set<std::string> kinds;
  Res (* fn)(Ctx &);
};
bool err() {bool s = rcutils_error_is_set(); return s;}

Res text(char * p, Ctx & x, bool needs_error = false)
{
  Res r;
  r.failed = p == nullptr;
  if (p) {r.out = p; rcutils_allocator_t a = x.A.get(); a.deallocate(p, a.state);}
  r.reported = !r.failed || !needs_error || err();
  return r;
}
Res op_format(Ctx & x)
{
  std::string s = x.g.str(x.g.size(4000), "abc");
  return text(rcutils_format_string_limit(x.A.get(), 3000, "%s-%d", s.c_str(), 5), x);
}
Res op_join(Ctx & x)
{
  std::string s = x.g.str(x.g.size(4000), "ab/"), t = x.g.str(x.g.size(50), "xy");
  return text(rcutils_join_path(s.c_str(), t.c_str(), x.A.get()), x);
}
Res op_expand(Ctx & x)
{
  std::string s = "~/" + x.g.str(x.g.size(3000), "ab/");
  return text(rcutils_expand_user(s.c_str(), x.A.get()), x);
}
__attribute__((format(printf, 2, 3)))
rcutils_ret_t vs(rcutils_char_array_t * a, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  rcutils_ret_t r = rcutils_char_array_vsprintf(a, f, ap);
  va_end(ap);
  return r;
}
Res op_chars(Ctx & x)
{
  Res r;
  char local[40];
  rcutils_char_array_t a = rcutils_get_zero_initialized_char_array();
  rcutils_allocator_t al = x.A.get();
  bool own = x.g.chance(1, 2);
  if (own) {
    if (rcutils_char_array_init(&a, x.g.below(60), &al) != RCUTILS_RET_OK) {fail("op.setup", "char array");}
  } else {
    local[0] = '\0';
    a.buffer = local;
    a.buffer_capacity = sizeof(local);
    a.allocator = al;
  }
  std::string s = x.g.str(x.g.size(200), "abc");
  rcutils_ret_t ret = vs(&a, "%s%d", s.c_str(), 77);
  r.failed = ret != RCUTILS_RET_OK;
  r.reported = !r.failed || err();
  Off o;
  MON_CHECK(a.buffer_length <= a.buffer_capacity, "op.char-array", "length %zu, capacity %zu", a.buffer_length, a.buffer_capacity);
  if (!r.failed) {r.out = a.buffer;}
  MON_CHECK(rcutils_char_array_fini(&a) == RCUTILS_RET_OK, "op.char-array", "cannot be finalized");
  return r;
}
Res op_snprintf(Ctx & x)
{
  Res r;
  char b[50];
  std::string s = x.g.str(x.g.size(100), "abc");
  int n = x.g.chance(1, 3) ? (b[0] = '\0', rcutils_snprintf(nullptr, 0, "%s", s.c_str())) : rcutils_snprintf(b, sizeof(b), "%s", s.c_str());
  r.failed = n < 0;
  if (!r.failed) {r.out = std::to_string(n) + b;}
  return r;
}
template<rcutils_ret_t (* F)(const rcutils_time_point_value_t *, char *, size_t)>
Res op_timestr(Ctx & x)
{
  Res r;
  char b[60] = "";
  rcutils_time_point_value_t t = static_cast<int64_t>(x.g.next()) >> x.g.below(40);
  size_t n = x.g.range(1, sizeof(b));
  r.failed = F(&t, b, n) != RCUTILS_RET_OK;
  r.reported = !r.failed || err();
  r.out = b;
  return r;
}
template<rcutils_ret_t (* F)(rcutils_time_point_value_t *)>
Res op_now(Ctx & x)
{
  Res r;
  (void)x;
  rcutils_time_point_value_t t = -1;
  r.failed = F(&t) != RCUTILS_RET_OK;
  r.reported = !r.failed || err();
  r.out = r.failed ? "" : t > 0 ? "some time" : "no time";
  return r;
}
Res op_libname(Ctx & x)
{
  Res r;
  char b[100] = "";
  std::string s = x.g.str(x.g.size(80), "abc");
  r.failed = rcutils_get_platform_library_name(s.c_str(), b, sizeof(b), x.g.chance(1, 2)) != RCUTILS_RET_OK;
  r.reported = !r.failed || err();
  r.out = b;
  return r;
}
Res op_cwd(Ctx & x)
{
  (void)x;
  Res r;
  static char b[PATH_MAX];
  r.failed = !rcutils_get_cwd(b, sizeof(b));
  r.out = r.failed ? "" : b;
  return r;
}
Res op_mkdir(Ctx & x)
{
  Res r;
  std::string p = x.dir + "/new" + x.g.str(3, "abc");
  r.failed = !rcutils_mkdir(p.c_str());
  Off o;
  struct stat s;
  bool there = stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode);
  MON_CHECK(r.failed == !there, "op.mkdir", "%s although the directory is%s there", r.failed ? "failed" : "succeeded", there ? "" : " not");
  rmdir(p.c_str());
  r.out = "made";
  return r;
}
Res op_size(Ctx & x)
{
  Res r;
  uint64_t n = 0;
  r.failed = rcutils_calculate_directory_size_with_recursion(x.dir.c_str(), x.g.below(3), &n, x.A.get()) != RCUTILS_RET_OK;
  r.out = std::to_string(n);
  return r;
}
Res op_list(Ctx & x)
{
  Res r;
  std::set<std::string> names;
  rcutils_dir_iter_t * it = rcutils_dir_iter_start(x.dir.c_str(), x.A.get());
  if (!it) {r.failed = true; r.reported = err(); return r;}
  unsigned n = 0;
  errno = static_cast<int>(x.g.below(30));        // whatever failed long before
  do {
    if (it->entry_name) {names.insert(it->entry_name);}
    errno = static_cast<int>(x.g.below(30));
  } while (rcutils_dir_iter_next(it) && ++n < 1000);
  r.failed = err();
  rcutils_dir_iter_end(it);
  for (auto & s : names) {r.out += s + ";";}
  return r;
}
std::string libs()
{
  static std::string d;
  if (d.empty()) {
    char b[PATH_MAX];
    ssize_t n = readlink("/proc/self/exe", b, sizeof(b) - 1);
    std::string e(b, n > 0 ? static_cast<size_t>(n) : 0);
    d = e.substr(0, e.rfind('/')) + "/aux";
  }
  return d;
}
Res op_library(Ctx & x)
{
  Res r;
  std::string p = libs() + "/libmon_a.so";
  rcutils_shared_library_t l = rcutils_get_zero_initialized_shared_library();
  if (rcutils_load_shared_library(&l, p.c_str(), x.A.get()) != RCUTILS_RET_OK) {
    r.failed = true;
    r.reported = err();
    MON_CHECK(!rcutils_is_shared_library_loaded(&l), "op.library", "loaded after a failure");
  } else {
    r.out = rcutils_has_symbol(&l, "mon_id") && rcutils_get_symbol(&l, "mon_id") ? "symbol" : "";
    r.failed = rcutils_unload_shared_library(&l) != RCUTILS_RET_OK;
    r.reported = !r.failed || err();
    MON_CHECK(!rcutils_is_shared_library_loaded(&l) && l.library_path == nullptr, "op.library", "still loaded");
  }
  Off o;
  void * h = dlopen(p.c_str(), RTLD_LAZY | RTLD_NOLOAD);
  if (h) {dlclose(h);}
  dlerror();
  MON_CHECK(!h, "op.library", "the library stays open");
  return r;
}
Res op_setenv(Ctx & x)
{
  Res r;
  std::string n = "MON_OS_" + x.g.str(2, "ABC"), v = x.g.str(x.g.size(50), "xyz");
  {Off o; if (x.g.chance(1, 2)) {setenv(n.c_str(), "before", 1);} else {unsetenv(n.c_str());}}
  const char * had = getenv(n.c_str());
  std::string before = had ? had : "(unset)";
  unsigned k = static_cast<unsigned>(x.g.below(3));
  r.failed = !(k == 0 ? rcutils_set_env(n.c_str(), v.c_str()) : k == 1 ? rcutils_set_env_overwrite(n.c_str(), v.c_str(), x.g.chance(1, 2)) :
    rcutils_set_env(n.c_str(), nullptr));
  r.reported = !r.failed || err();
  Off o;
  const char * now = getenv(n.c_str());
  r.out = now ? now : "(unset)";
  if (r.failed) {MON_CHECK(r.out == before, "op.env", "%s, was %s", show(r.out).c_str(), show(before).c_str());}
  unsetenv(n.c_str());
  return r;
}
Res op_init(Ctx & x)
{
  Res r;
  {
    Off o;
    setenv("RCUTILS_LOGGING_USE_STDOUT", x.g.chance(1, 2) ? "1" : "0", 1);
    setenv("RCUTILS_LOGGING_BUFFERED_STREAM", x.g.chance(1, 2) ? "1" : "0", 1);
  }
  rcutils_ret_t ret = rcutils_logging_initialize_with_allocator(x.A.get());
  r.failed = ret != RCUTILS_RET_OK;
  r.reported = !r.failed || err();
  if (!r.failed) {r.out = std::to_string(rcutils_logging_get_default_logger_level());}
  Off o;
  unsetenv("RCUTILS_LOGGING_USE_STDOUT");
  unsetenv("RCUTILS_LOGGING_BUFFERED_STREAM");
  rcutils_reset_error();
  MON_CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "op.shutdown", "failed: %s", rcutils_get_error_string().str);
  return r;
}
struct Logging
{
  explicit Logging(Ctx & x, const char * format, bool out)
  {
    Off o;
    setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", format, 1);
    setenv("RCUTILS_LOGGING_USE_STDOUT", out ? "1" : "0", 1);
    setenv("RCUTILS_COLORIZED_OUTPUT", x.g.chance(1, 2) ? "1" : "0", 1);
    if (rcutils_logging_initialize_with_allocator(x.A.get()) != RCUTILS_RET_OK) {fail("op.setup", "logging");}
  }
  ~Logging()
  {
    Off o;
    for (const char * n : {"RCUTILS_CONSOLE_OUTPUT_FORMAT", "RCUTILS_LOGGING_USE_STDOUT", "RCUTILS_COLORIZED_OUTPUT"}) {unsetenv(n);}
    if (rcutils_logging_shutdown() != RCUTILS_RET_OK) {note("op.shutdown", "failed");}
  }
};
const char * FORMAT = "[{severity}] [{date_time_with_ms}] [{time}] [{time_as_nanoseconds}] [{name}] {message} {function_name} {file_name}:{line_number} end";
Res op_message(Ctx & x)
{
  Res r;
  Logging l(x, FORMAT, false);
  rcutils_log_location_t loc = {"fn", "file", static_cast<size_t>(x.g.below(1000))};
  rcutils_char_array_t a = rcutils_get_zero_initialized_char_array();
  rcutils_allocator_t al = x.A.get();
  if (rcutils_char_array_init(&a, 0, &al) != RCUTILS_RET_OK) {fail("op.setup", "char array");}
  rcutils_ret_t ret = rcutils_logging_format_message(&loc, RCUTILS_LOG_SEVERITY_WARN, "name", static_cast<int64_t>(x.g.next() >> 3),
      x.g.str(x.g.size(1500), "msg").c_str(), &a);
  r.failed = ret != RCUTILS_RET_OK;
  Off o;
  if (!r.failed) {r.out = a.buffer;}
  if (rcutils_char_array_fini(&a) != RCUTILS_RET_OK) {fail("op.char-array", "cannot be finalized");}
  return r;
}
// the message only, so that the whole line is known
Res op_console(Ctx & x)
{
  Res r;
  Logging l(x, "<{message}> {line_number}", true);
  rcutils_log_location_t loc = {"fn", "file", 12};
  std::string m = x.g.str(x.g.size(1500), "msg");
  std::string e, s;
  {
    Capture out(stdout, 1);
    {
      Capture se(stderr, 2);
      rcutils_log(&loc, RCUTILS_LOG_SEVERITY_ERROR, "name", "%s|%d", m.c_str(), 9);
      Off o;
      e = se.stop();
    }
    Off o;
    s = out.stop();
  }
  r.failed = s.empty();
  r.reported = !r.failed || !e.empty();
  r.out = s;
  return r;
}
uint64_t delivered;
void handler(const rcutils_log_location_t *, int, const char *, rcutils_time_point_value_t, const char *, va_list *) {++delivered;}
Res op_deliver(Ctx & x)
{
  Res r;
  Logging l(x, "{message}", false);
  rcutils_logging_set_output_handler(handler);
  delivered = 0;
  std::string e;
  {
    Capture se(stderr, 2);
    rcutils_log(nullptr, RCUTILS_LOG_SEVERITY_ERROR, "name", "text");
    Off o;
    e = se.stop();
  }
  r.failed = delivered == 0;
  r.reported = !r.failed || !e.empty();
  r.out = std::to_string(delivered);
  return r;
}
Res op_errorf(Ctx & x)
{
  Res r;
  std::string s = x.g.str(x.g.size(1200), "abc"), e;
  {
    Capture se(stderr, 2);
    RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("<%s>", s.c_str());
    Off o;
    e = se.stop();
  }
  r.failed = !rcutils_error_is_set();
  r.reported = !r.failed || !e.empty();
  if (!r.failed) {r.out = rcutils_get_error_state()->message;}
  return r;
}

const std::vector<Op> & ops()
{
  static const std::vector<Op> o = {
    {"format", {"vsnprintf"}, op_format}, {"join", {"vsnprintf"}, op_join}, {"expand", {"vsnprintf"}, op_expand}, {"char_array", {"vsnprintf"}, op_chars},
    {"snprintf", {"vsnprintf"}, op_snprintf},
    {"date", {"vsnprintf", "localtime_r", "strftime"}, op_timestr<rcutils_time_point_value_as_date_string>},
    {"seconds", {"vsnprintf"}, op_timestr<rcutils_time_point_value_as_seconds_string>},
    {"nanoseconds", {"vsnprintf"}, op_timestr<rcutils_time_point_value_as_nanoseconds_string>},
    {"system_time", {"clock_gettime"}, op_now<rcutils_system_time_now>}, {"steady_time", {"clock_gettime"}, op_now<rcutils_steady_time_now>},
    {"library_name", {"vsnprintf"}, op_libname}, {"cwd", {"getcwd"}, op_cwd}, {"mkdir", {"mkdir"}, op_mkdir},
    {"directory_size", {"opendir", "readdir", "vsnprintf"}, op_size}, {"listing", {"opendir", "readdir"}, op_list},
    {"library", {"dlopen", "dlinfo", "dlclose"}, op_library}, {"set_env", {"setenv", "unsetenv"}, op_setenv},
    {"logging_init", {"setvbuf"}, op_init}, {"message", {"vsnprintf", "localtime_r", "strftime"}, op_message},
    {"console", {"vsnprintf", "clock_gettime"}, op_console}, {"deliver", {"clock_gettime"}, op_deliver}, {"error_format", {"vsnprintf"}, op_errorf}};
  return o;
}

Res once(const Op & op, uint64_t seed, const std::string & dir, uint64_t at, bool forever, uint64_t errsel, uint64_t & calls, uint64_t & hits)
{
  Ctx x(seed, dir);
  rcutils_reset_error();
  Res r;
  size_t fds = open_fds();
  {
    Capture q(stderr, 2);
    {
      Armed a(op.kinds, at, forever, errsel);
      r = op.fn(x);
      calls = inj.n;
      hits = inj.hits;
    }
    q.stop();
  }
  raise();
  check_empty(x.A, op.name);
  MON_CHECK(open_fds() == fds, "op.fds", "%s: descriptors stayed open", op.name);
  rcutils_reset_error();
  return r;
}

void operations(Case & c)
{
  Rng & g = c.rng;
  const Op & op = ops()[c.idx % ops().size()];
  uint64_t seed = g.next();
  Dir D;
  if (strstr("directory_size listing", op.name)) {
    Tree t;
    t.fill(g, D.p, "", 2);
  }
  uint64_t total = 0, hits = 0, n = 0;
  Res good = once(op, seed, D.p, 0, false, 0, total, hits);
  MON_CHECK(!good.failed, "op.normal", "%s fails without any fault", op.name);
  for (uint64_t k = 1; k <= total && k <= 60; ++k) {
    for (int forever = 0; forever < 2; ++forever) {
      uint64_t es = g.next();
      Res r = once(op, seed, D.p, k, forever != 0, es, n, hits);
      tr(fmt("%s: call %" PRIu64 " of %" PRIu64 " fails (%s%s) -> %s", op.name, k, total, inj.first.c_str(), forever ? " and all later" : "",
        r.failed ? "failure" : "success"));
      if (hits == 0) {continue;}       // fewer calls this time
      count(fmt("failed.%s", inj.first.c_str()));
      count(fmt("op.%s", op.name));
      if (r.failed) {
        // with formatting unavailable for good, there may be no message
        MON_CHECK(r.reported || (forever && inj.first == "vsnprintf"), "op.silent", "%s: the failure was not reported", op.name);
      } else {
        MON_CHECK(r.out == good.out, "op.partial", "%s claims success with %s, should be %s", op.name, show(r.out, 300).c_str(), show(good.out, 300).c_str());
        count("op.unaffected");
      }
      c.mix(k * 2 + static_cast<uint64_t>(forever)); c.mix(r.out);
    }
  }
  Res again = once(op, seed, D.p, 0, false, 0, n, hits);
  MON_CHECK(!again.failed && again.out == good.out, "op.after", "%s: %s after the faults, %s before", op.name, show(again.out, 300).c_str(), show(good.out, 300).c_str());
  c.mix(op.name);
  if (total) {c.interesting();}
  if (c.want_sample()) {c.sample(fmt("%s: %" PRIu64 " calls failed in turn", op.name, total));}
}

// A predicate has no way to report a failure: it says no.
void predicates(Case & c)
{
  Rng & g = c.rng;
  Dir D;
  std::string f = D.p + "/f";
  int fd = open(f.c_str(), O_WRONLY | O_CREAT, 0666);
  if (fd < 0 || ftruncate(fd, 77) != 0) {perror("open"); exit(3);}
  close(fd);
  bool (* preds[])(const char *) = {rcutils_exists, rcutils_is_directory, rcutils_is_file, rcutils_is_readable, rcutils_is_writable, rcutils_is_readable_and_writable};
  for (std::string p : {f, D.p}) {
    for (auto q : preds) {
      bool before = q(p.c_str());
      Armed a({}, 0, false, 0);
      inj.paths[p] = g.pick(errnos("stat"));
      bool b = q(p.c_str());
      uint64_t h = inj.hits;
      inj.on = false;
      MON_CHECK(!b || h == 0, "pred.failed", "true although the path could not be looked at");
      MON_CHECK(q(p.c_str()) == before, "pred.after", "another answer after the fault");
      count("pred.failed", h);
    }
  }
  Capture q(stderr, 2);
  size_t n;
  {
    Armed a({}, 0, false, 0);
    inj.paths[f] = g.pick(errnos("stat"));
    n = rcutils_get_file_size(f.c_str());
  }
  size_t m = rcutils_get_file_size(f.c_str());
  // the directory may have come into being, but nobody can tell
  bool made;
  std::string d = D.p + "/d";
  mkdir(d.c_str(), 0755);
  {
    Armed a({}, 0, false, 0);
    inj.paths[d] = g.pick(errnos("stat"));
    made = rcutils_mkdir(d.c_str()) && inj.hits > 0;
  }
  q.stop();
  MON_CHECK(n == 0 && m == 77, "pred.size", "sizes %zu, %zu", n, m);
  MON_CHECK(!made, "pred.mkdir", "success although what is there could not be looked at");
  c.mix(g.next());
  c.interesting();
}

void reg()
{
  umask(022);
  __real_setenv("HOME", "/home/of/somebody", 1);
  {Capture once(stderr, 2);}
  section("operations", 8800, 90000, operations);
  section("faulty-tree", 2400, 40000, faulty_tree);
  section("unsearchable", 24, 240, unsearchable);
  section("predicates", 400, 8000, predicates);
}
}  // namespace
MON_MAIN(reg)
