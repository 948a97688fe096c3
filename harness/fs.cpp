// File system interface: predicates, directory creation, path strings, listing and directory sizes (P27, P28, P29).
// All effects stay below the scratch directory of the shard.
#include <dirent.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <climits>

#include "capture.hpp"
#include "mon.hpp"
#include "rcutils/filesystem.h"

using namespace mon;

namespace
{
std::string base()
{
  static std::string b;
  if (b.empty()) {
    b = (run().scratch.empty() ? std::string("/tmp") : run().scratch) + "/fs." + std::to_string(getpid());
    if (mkdir(b.c_str(), 0755) != 0 && errno != EEXIST) {perror("mkdir"); exit(3);}
    char r[PATH_MAX];
    if (realpath(b.c_str(), r)) {b = r;}
  }
  return b;
}

void wipe_at(int at, const char * n)
{
  struct stat s;
  if (fstatat(at, n, &s, AT_SYMLINK_NOFOLLOW) != 0) {return;}
  if (S_ISDIR(s.st_mode)) {
    int fd = openat(at, n, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
    if (fd < 0) {return;}
    fchmod(fd, 0700);
    DIR * d = fdopendir(dup(fd));
    std::vector<std::string> names;
    while (struct dirent * e = readdir(d)) {
      if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {names.push_back(e->d_name);}
    }
    closedir(d);
    for (auto & x : names) {wipe_at(fd, x.c_str());}
    close(fd);
    unlinkat(at, n, AT_REMOVEDIR);
  } else {unlinkat(at, n, 0);}
}

// A fresh directory for one case.
struct Dir
{
  std::string p;
  Dir()
  {
    p = base() + "/c";
    wipe_at(AT_FDCWD, p.c_str());
    if (mkdir(p.c_str(), 0755) != 0) {perror("mkdir case"); exit(3);}
  }
  ~Dir() {wipe_at(AT_FDCWD, p.c_str());}
};

void put(const std::string & p, uint64_t size)
{
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) {perror(("open " + p).c_str()); exit(3);}
  if (size > 100000) {
    if (ftruncate(fd, static_cast<off_t>(size)) != 0) {perror("ftruncate"); exit(3);}
  } else {
    std::string z(size, 'x');
    if (write(fd, z.data(), z.size()) != static_cast<ssize_t>(size)) {perror("write"); exit(3);}
  }
  close(fd);
}

size_t open_fds()
{
  size_t n = 0;
  DIR * d = opendir("/proc/self/fd");
  if (!d) {return 0;}
  while (readdir(d)) {++n;}
  closedir(d);
  return n;
}

// What the library prints on its way is not of interest here.
struct Quiet
{
  Capture c;
  Quiet() : c(stderr, 2) {}
};

// Runs with the rights of an unprivileged user, where that is possible.
struct Unprivileged
{
  bool on = false;
  explicit Unprivileged(bool want)
  {
    if (want && geteuid() == 0 && seteuid(65534) == 0) {on = true;}
  }
  ~Unprivileged() {if (on && seteuid(0) != 0) {abort();}}
};

std::string name(Rng & g, bool odd = true)
{
  switch (g.below(odd ? 8 : 4)) {
    case 0: return g.str(1, "abcd");
    case 1: return g.str(g.range(1, 3), "ab.");
    case 2: return "." + g.str(g.range(1, 5), "abc");
    case 3: return g.str(g.range(1, 12), "abcxyz019_- ");
    case 4: return ".." + g.str(g.range(1, 3), "ab.");
    case 5: {
        std::string s = g.cstr(g.range(1, 20));
        std::replace(s.begin(), s.end(), '/', '_');
        return s;
      }
    case 6: return g.str(255 - g.below(3), "abc");
    default: return g.str(g.range(1, 5), "%sdn~") ;
  }
}
bool dots(const std::string & n) {return n == "." || n == "..";}

// ---------------------------------------------------------------- P27 predicates
struct Expect
{
  bool exists = false, dir = false, file = false, r = false, w = false;
  uint64_t size = 0;
  explicit Expect(const char * p)
  {
    struct stat s;
    if (!p || stat(p, &s) != 0) {return;}
    exists = true;
    dir = (s.st_mode & S_IFMT) == S_IFDIR;
    file = (s.st_mode & S_IFMT) == S_IFREG;
    r = (s.st_mode & 0400) != 0;
    w = (s.st_mode & 0200) != 0;
    if (file) {size = static_cast<uint64_t>(s.st_size);}
  }
};

void compare(const std::string & path, const char * what)
{
  Exact p(path);
  Expect e(path.c_str());
  std::string d = fmt("%s (%s)", show(path, 120).c_str(), what);
  errno = EEXIST;
  MON_CHECK(rcutils_exists(p) == e.exists, "exists", "%s: should be %d", d.c_str(), e.exists);
  MON_CHECK(rcutils_is_directory(p) == e.dir, "is_directory", "%s: should be %d", d.c_str(), e.dir);
  MON_CHECK(rcutils_is_file(p) == e.file, "is_file", "%s: should be %d", d.c_str(), e.file);
  MON_CHECK(rcutils_is_readable(p) == e.r, "is_readable", "%s: should be %d", d.c_str(), e.r);
  MON_CHECK(rcutils_is_writable(p) == e.w, "is_writable", "%s: should be %d", d.c_str(), e.w);
  MON_CHECK(rcutils_is_readable_and_writable(p) == (e.r && e.w), "is_readable_and_writable", "%s: should be %d", d.c_str(), e.r && e.w);
  size_t got = rcutils_get_file_size(p);
  MON_CHECK(got == e.size, "file_size", "%s: %zu, should be %" PRIu64, d.c_str(), got, e.size);
  MON_CHECK(memcmp(p, path.c_str(), path.size() + 1) == 0, "input", "%s: the path was modified", d.c_str());
  count(std::string("seen.") + (!e.exists ? "absent" : e.dir ? "directory" : e.file ? "file" : "other"));
  if (e.exists) {count(fmt("mode.%d%d", e.r, e.w));}
  if (e.size > UINT32_MAX) {count("seen.huge");}
}

void predicates(Case & c)
{
  Rng & g = c.rng;
  Dir D;
  std::vector<std::pair<std::string, std::string>> all;   // path, kind
  std::vector<std::string> kinds;
  unsigned n = static_cast<unsigned>(g.range(2, 8));
  for (unsigned i = 0; i < n; ++i) {
    std::string nm = name(g);
    if (dots(nm)) {continue;}
    std::string p = D.p + "/" + nm;
    struct stat s;
    if (lstat(p.c_str(), &s) == 0) {continue;}
    unsigned kind = static_cast<unsigned>(g.below(9));
    const char * k = "file";
    if (!all.empty() && (kind == 4 || kind == 5)) {
      if (symlink(g.pick(all).first.c_str(), p.c_str()) != 0) {continue;}
      k = "link";
    } else if (kind == 0) {
      mkdir(p.c_str(), 0755);
      if (g.chance(1, 2)) {put(p + "/in", g.below(10)); all.push_back({p + "/in", "file"});}
      k = "directory";
    } else if (kind == 1) {
      if (mkfifo(p.c_str(), 0644) != 0) {continue;}
      k = "fifo";
    } else if (kind == 2) {
      if (symlink("nowhere", p.c_str()) != 0) {continue;}
      k = "dangling link";
    } else if (kind == 3) {
      if (symlink(nm.c_str(), p.c_str()) != 0) {continue;}
      k = "looping link";
    } else if (kind == 6) {
      int fd = socket(AF_UNIX, SOCK_STREAM, 0);
      struct sockaddr_un u;
      memset(&u, 0, sizeof(u));
      u.sun_family = AF_UNIX;
      if (fd < 0 || p.size() >= sizeof(u.sun_path)) {
        if (fd >= 0) {close(fd);}
        continue;
      }
      strcpy(u.sun_path, p.c_str());
      if (bind(fd, reinterpret_cast<struct sockaddr *>(&u), sizeof(u)) != 0) {close(fd); continue;}
      close(fd);
      k = "socket";
    } else {
      put(p, g.chance(1, 8) ? (uint64_t(1) << (31 + g.below(4))) + g.below(5) - 2 : g.size(5000));
    }
    all.push_back({p, k});
    c.mix(kind * 1000 + nm.size());
  }
  all.push_back({"/dev/null", "device"});
  all.push_back({"/", "root"});
  all.push_back({D.p, "directory"});
  Quiet q;
  unsigned steps = static_cast<unsigned>(g.range(6, 16));
  for (unsigned i = 0; i < steps; ++i) {
    auto & x = g.pick(all);
    std::string p = x.first;
    switch (g.below(12)) {
      case 0: p += "/"; break;
      case 1: p += "/."; break;
      case 2: p += "/.."; break;
      case 3: p += "/missing"; break;
      case 4: p = D.p + "//./" + p.substr(std::min(p.size(), D.p.size())); break;
      case 5: p += "x"; break;
      case 6: p += "/" + std::string(g.pick(std::vector<size_t>{254, 255, 256, 1000, 4090, 4096, 8000}), 'y'); break;
      case 7: {     // something changes
          if (x.second == "file" || x.second == "directory") {
            if (x.first == D.p) {break;}
            mode_t m = static_cast<mode_t>(g.below(512));
            chmod(p.c_str(), m);
            tr(fmt("chmod %o %s", static_cast<unsigned>(m), show(p, 60).c_str()));
            count("changes");
          }
          break;
        }
      case 8:
        if (x.second == "file") {
          unlink(p.c_str());
          if (g.chance(1, 2)) {mkdir(p.c_str(), static_cast<mode_t>(g.below(512)));}
          count("changes");
        }
        break;
      case 9: if (x.second == "file") {struct stat s; if (stat(p.c_str(), &s) == 0 && S_ISREG(s.st_mode)) {put(p, g.size(5000));} count("changes");} break;
      default: break;
    }
    c.mix(p.size());
    Unprivileged u(g.chance(1, 10));
    compare(p, x.second.c_str());
  }
  if (g.chance(1, 4)) {
    compare("", "empty");
    MON_CHECK(!rcutils_exists(nullptr) && !rcutils_is_directory(nullptr) && !rcutils_is_file(nullptr) && !rcutils_is_readable(nullptr) &&
      !rcutils_is_writable(nullptr) && !rcutils_is_readable_and_writable(nullptr), "null", "a predicate holds for NULL");
  }
  if (all.size() > 5) {c.interesting();}
  q.c.stop();
  if (c.want_sample()) {
    std::string s;
    for (auto & x : all) {s += (s.empty() ? "" : ", ") + x.second;}
    c.sample(fmt("entries: %s; %u queries", s.c_str(), steps));
  }
}

void cwd(Case & c)
{
  Rng & g = c.rng;
  Dir D;
  int old = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
  std::string p = D.p;
  if (chdir(p.c_str()) != 0) {perror("chdir"); exit(3);}
  unsigned depth = static_cast<unsigned>(g.chance(1, 10) ? g.range(8, 20) : g.below(5));
  for (unsigned i = 0; i < depth; ++i) {
    std::string nm = depth > 7 ? g.str(g.range(150, 250), "ab") : name(g);
    if (dots(nm)) {continue;}
    mkdir(nm.c_str(), 0755);
    if (chdir(nm.c_str()) != 0) {break;}
    p += "/" + nm;
  }
  c.mix(p);
  struct Back {int fd; ~Back() {if (fchdir(fd) != 0) {abort();} close(fd);}} back{old};
  for (size_t cap : {p.size() + 1, p.size(), size_t(1), p.size() + 1 + g.below(100), g.range(1, p.size() + 2), p.size() + 4096}) {
    char * b = static_cast<char *>(malloc(cap));
    memset(b, '#', cap);
    bool r = rcutils_get_cwd(b, cap);
    bool e = p.size() + 1 <= cap;
    if (p.size() + 1 > PATH_MAX) {
      // the kernel gives only what fits a page; whatever is given must be right
      if (r) {MON_CHECK(p == b, "cwd", "wrong directory");}
      count("cwd.beyond-path-max");
    } else {
      MON_CHECK(r == e, "cwd.result", "buffer of %zu for a path of %zu: %d", cap, p.size(), r);
      if (r) {MON_CHECK(p == b, "cwd", "%s, should be %s", show(b).c_str(), show(p).c_str());}
    }
    free(b);
    count(r ? "cwd.ok" : "cwd.small");
  }
  char z = '#';
  MON_CHECK(!rcutils_get_cwd(&z, 0) && z == '#', "cwd.zero", "zero length");
  MON_CHECK(!rcutils_get_cwd(nullptr, 100), "cwd.null", "NULL buffer");
  if (depth && g.chance(1, 4) && rmdir(p.c_str()) == 0) {
    char b[PATH_MAX * 2];
    MON_CHECK(!rcutils_get_cwd(b, sizeof(b)), "cwd.removed", "%s is the removed working directory", show(b).c_str());
    count("cwd.removed");
  }
  c.interesting();
}

// ---------------------------------------------------------------- P27 mkdir
using Snap = std::map<std::string, std::string>;
void snap(const std::string & p, Snap & out, const std::string & rel = "")
{
  DIR * d = opendir(p.c_str());
  if (!d) {return;}
  while (struct dirent * e = readdir(d)) {
    std::string n = e->d_name;
    if (dots(n)) {continue;}
    struct stat s;
    if (lstat((p + "/" + n).c_str(), &s) != 0) {continue;}
    bool dir = S_ISDIR(s.st_mode);
    out[rel + n] = fmt("%o %" PRIu64 " %" PRIu64 " %u", s.st_mode, static_cast<uint64_t>(s.st_ino), dir ? 0 : static_cast<uint64_t>(s.st_size), s.st_uid);
    if (dir) {snap(p + "/" + n, out, rel + n + "/");}
  }
  closedir(d);
}

bool creatable(const std::string & p)
{
  // parent and final component of an absolute path
  std::string q = p;
  while (q.size() > 1 && q.back() == '/') {q.pop_back();}
  size_t k = q.rfind('/');
  std::string parent = k == 0 ? "/" : q.substr(0, k), leaf = q.substr(k + 1);
  struct stat s;
  if (leaf.empty() || dots(leaf) || leaf.size() > NAME_MAX || p.size() >= PATH_MAX) {return false;}
  if (stat(parent.c_str(), &s) != 0 || !S_ISDIR(s.st_mode)) {return false;}
  if (lstat(q.c_str(), &s) == 0) {return false;}
  return faccessat(AT_FDCWD, parent.c_str(), W_OK | X_OK, AT_EACCESS) == 0;
}

void mkdirs(Case & c)
{
  Rng & g = c.rng;
  Dir D;
  int old = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
  if (chdir(D.p.c_str()) != 0) {perror("chdir"); exit(3);}
  struct Back {int fd; ~Back() {if (fchdir(fd) != 0) {abort();} close(fd);}} back{old};
  put(D.p + "/file", 5);
  mkdir((D.p + "/dir").c_str(), 0755);
  mkdir((D.p + "/closed").c_str(), 0500);
  mkdir((D.p + "/open").c_str(), 0755);
  chmod((D.p + "/open").c_str(), 0777);
  if (symlink("dir", (D.p + "/to-dir").c_str()) != 0 || symlink("file", (D.p + "/to-file").c_str()) != 0 ||
    symlink("gone", (D.p + "/dangling").c_str()) != 0 || symlink("loop", (D.p + "/loop").c_str()) != 0) {perror("symlink"); exit(3);}
  if (mkfifo((D.p + "/fifo").c_str(), 0644) != 0) {perror("mkfifo"); exit(3);}
  std::vector<std::string> known = {"file", "dir", "closed", "open", "to-dir", "to-file", "dangling", "loop", "fifo", "new", "gone"};
  unsigned steps = static_cast<unsigned>(g.range(5, 16)), made = 0;
  for (unsigned i = 0; i < steps; ++i) {
    std::string rel = g.pick(known);
    switch (g.below(10)) {
      case 0: case 1: case 2: rel += "/" + g.pick(known); break;
      case 3: rel += "/" + name(g); break;
      case 4: rel = name(g); break;
      case 5: rel += "/" + g.pick(known) + "/" + g.pick(known); break;
      case 6: rel += "/" + std::string(g.range(253, 258), 'n'); break;
      default: break;
    }
    std::string p = D.p + "/" + rel;
    if (g.chance(1, 8)) {p += "/";}
    if (g.chance(1, 20)) {p += "/";}
    if (g.chance(1, 20)) {p += "/.";}
    if (g.chance(1, 20)) {p = "/" + p;}
    if (g.chance(1, 15)) {p = D.p + std::string(g.range(1, 4200), '/') + rel;}
    if (g.chance(1, 8)) {p = rel;}           // relative
    if (g.chance(1, 30)) {p = "/";}
    if (g.chance(1, 30)) {p = "./" + rel;}
    if (g.chance(1, 40)) {p = "";}
    Unprivileged u(g.chance(1, 5));
    bool abs = !p.empty() && p[0] == '/';
    struct stat s;
    bool isdir = abs && stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode);
    bool make = abs && !isdir && creatable(p);
    Snap before, after;
    {
      uid_t e = geteuid();
      if (u.on && seteuid(0) != 0) {abort();}
      snap(D.p, before);
      if (u.on && seteuid(e) != 0) {abort();}
    }
    Exact x(p);
    errno = g.chance(1, 3) ? EEXIST : g.chance(1, 2) ? ENOENT : 0;
    mode_t um = static_cast<mode_t>(g.pick(std::vector<mode_t>{022, 0, 077, 002}));
    umask(um);
    bool r = rcutils_mkdir(x);
    umask(022);
    tr(fmt("mkdir %s%s -> %d", show(p, 80).c_str(), u.on ? " unprivileged" : "", r));
    c.mix(p);
    MON_CHECK(r == (isdir || make), "mkdir.result", "%d, should be %d (existing directory: %d)", r, isdir || make, isdir);
    {
      uid_t e = geteuid();
      if (u.on && seteuid(0) != 0) {abort();}
      snap(D.p, after);
      if (u.on && seteuid(e) != 0) {abort();}
    }
    MON_CHECK(after.size() == before.size() + make, "mkdir.entries", "%zu entries before and %zu after", before.size(), after.size());
    for (auto & b : before) {
      auto it = after.find(b.first);
      MON_CHECK(it != after.end() && it->second == b.second, "mkdir.altered", "%s was altered", show(b.first).c_str());
    }
    if (make) {
      ++made;
      MON_CHECK(stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode) && ((s.st_mode | um) & 0700) == 0700, "mkdir.directory", "no usable directory was made");
      count("mkdir.made");
    } else {count(isdir ? "mkdir.existing" : abs ? "mkdir.impossible" : "mkdir.relative");}
    if (u.on) {count("mkdir.unprivileged");}
  }
  MON_CHECK(!rcutils_mkdir(nullptr), "mkdir.null", "NULL");
  if (made) {c.interesting();}
}

// ---------------------------------------------------------------- P28 paths
std::string part(Rng & g)
{
  switch (g.below(8)) {
    case 0: return "";
    case 1: return g.str(g.below(6), "/a~.");
    case 2: return g.cstr(g.below(40));
    case 3: return "%s%n%d" + g.str(g.below(4), "%sx");
    case 4: return g.str(g.range(1015, 1030), "ab/");
    case 5: return g.str(g.range(2040, 2055), "ab/");
    case 6: return g.cstr(g.below(6000));
    default: return "/" + g.str(g.below(30), "abc/") + (g.chance(1, 2) ? "/" : "");
  }
}

void result(CkAlloc & A, char * r, const std::string & exp, const char * what)
{
  raise();
  MON_CHECK(r != nullptr, std::string("path.") + what, "failed");
  MON_CHECK(owned_by(r, A), std::string("path.alloc.") + what, "the result is not a block of the allocator");
  size_t n = block_size(r);
  MON_CHECK(memchr(r, 0, n) != nullptr, std::string("path.") + what, "not terminated");
  MON_CHECK(exp == r, std::string("path.") + what, "%s (%zu), should be %s (%zu)", show(std::string(r)).c_str(), strlen(r), show(exp).c_str(), exp.size());
  A.get().deallocate(r, &A);
  check_empty(A, what);
}

void paths(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("paths");
  std::string l = part(g), r = part(g);
  if (g.chance(1, 30)) {l = g.str(g.range(2047 - std::min<size_t>(r.size(), 2046), 2049), "l");}
  Exact el(l), er(r);
  result(A, rcutils_join_path(el, er, A.get()), l + "/" + r, "join");
  MON_CHECK(memcmp(el, l.c_str(), l.size() + 1) == 0 && memcmp(er, r.c_str(), r.size() + 1) == 0, "path.input", "an input was modified");
  count(l.size() + r.size() > 2046 ? "join.long" : "join.short");
  result(A, rcutils_to_native_path(el, A.get()), l, "to_native");
  MON_CHECK(memcmp(el, l.c_str(), l.size() + 1) == 0, "path.input", "an input was modified");
  // joining with itself
  result(A, rcutils_join_path(el, el, A.get()), l + "/" + l, "join");

  std::string home = g.chance(1, 3) ? "/home/" + g.str(g.below(20), "abc~") : g.chance(1, 2) ? part(g) : g.cstr(g.below(5000));
  bool set = !g.chance(1, 8);
  if (set) {setenv("HOME", home.c_str(), 1);} else {unsetenv("HOME");}
  std::string p = g.chance(2, 3) ? "~" + part(g) : part(g);
  Exact ep(p);
  rcutils_reset_error();
  char * x = rcutils_expand_user(ep, A.get());
  bool tilde = !p.empty() && p[0] == '~';
  if (tilde && (!set || home.empty())) {
    MON_CHECK(x == nullptr, "expand.no-home", "%s without HOME", show(std::string(x)).c_str());
    check_empty(A, "expand");
    count("expand.no-home");
  } else {
    result(A, x, tilde ? home + p.substr(1) : p, "expand");
    count(tilde ? "expand.tilde" : "expand.plain");
    if (tilde && home.size() + p.size() > 2048) {count("expand.long");}
  }
  MON_CHECK(memcmp(ep, p.c_str(), p.size() + 1) == 0, "path.input", "the input was modified");
  if (set) {MON_CHECK(home == getenv("HOME"), "path.env", "HOME was modified");} else {MON_CHECK(getenv("HOME") == nullptr, "path.env", "HOME was set");}
  auto a = A.get();
  if (g.chance(1, 10)) {
    MON_CHECK(!rcutils_join_path(nullptr, er, a) && !rcutils_join_path(el, nullptr, a) && !rcutils_to_native_path(nullptr, a) &&
      !rcutils_expand_user(nullptr, a), "path.null", "NULL was accepted");
    check_empty(A, "NULL");
  }
  c.mix(l); c.mix(r); c.mix(p); c.mix(home);
  if (!l.empty() && !r.empty()) {c.interesting();}
  if (c.want_sample()) {c.sample("join " + show(l, 40) + " and " + show(r, 40) + "; expand " + show(p, 40));}
}

// ---------------------------------------------------------------- P29 listing
void listing(Case & c)
{
  Rng & g = c.rng;
  Dir D;
  CkAlloc A("iter");
  unsigned n = static_cast<unsigned>(g.chance(1, 12) ? g.range(900, 1500) : g.below(30));
  std::set<std::string> names = {".", ".."};
  for (unsigned i = 0; i < n; ++i) {
    std::string nm = n > 100 ? fmt("entry-number-%u-", i) + g.str(g.below(30), "ab") : name(g);
    if (!names.insert(nm).second) {continue;}
    std::string p = D.p + "/" + nm;
    switch (g.below(4)) {
      case 0: mkdir(p.c_str(), 0755); break;
      case 1: if (symlink(g.chance(1, 2) ? "." : "nowhere", p.c_str()) != 0) {put(p, 0);} break;
      default: {int fd = open(p.c_str(), O_WRONLY | O_CREAT, 0600); if (fd < 0) {perror("open"); exit(3);} close(fd);} break;
    }
  }
  std::string spelled = D.p + (g.chance(1, 4) ? "/" : "") + (g.chance(1, 6) ? "/." : "");
  if (g.chance(1, 10)) {
    if (symlink(D.p.c_str(), (base() + "/link").c_str()) == 0) {spelled = base() + "/link";}
  }
  size_t fds = open_fds();
  unsigned k = static_cast<unsigned>(g.range(1, 3));
  struct It {rcutils_dir_iter_t * it; std::multiset<std::string> seen; bool done = false; size_t stop;};
  std::vector<It> its;
  for (unsigned i = 0; i < k; ++i) {
    Exact e(spelled);
    rcutils_dir_iter_t * it = rcutils_dir_iter_start(e, A.get());
    MON_CHECK(it != nullptr, "iter.start", "cannot iterate: %s", rcutils_get_error_string().str);
    MON_CHECK(it->entry_name != nullptr, "iter.first", "no first entry");
    It x;
    x.it = it;
    x.seen.insert(it->entry_name);
    x.stop = g.chance(1, 3) ? g.below(names.size() + 1) : SIZE_MAX;
    its.push_back(x);
  }
  while (true) {
    std::vector<size_t> live;
    for (size_t i = 0; i < its.size(); ++i) {if (!its[i].done) {live.push_back(i);}}
    if (live.empty()) {break;}
    It & x = its[g.pick(live)];
    if (x.seen.size() >= x.stop) {
      x.done = true;
      count("iter.early");
    } else if (rcutils_dir_iter_next(x.it)) {
      MON_CHECK(x.it->entry_name != nullptr, "iter.entry", "no name");
      x.seen.insert(x.it->entry_name);
      MON_CHECK(x.seen.size() <= names.size() + 5, "iter.endless", "more entries than there are");
    } else {
      x.done = true;
      MON_CHECK(x.seen.size() == names.size() && std::equal(names.begin(), names.end(), x.seen.begin()), "iter.complete",
        "%zu entries seen, there are %zu", x.seen.size(), names.size());
      MON_CHECK(!rcutils_dir_iter_next(x.it), "iter.after-end", "another entry after the end");
      count("iter.complete");
      if (names.size() > 800) {count("iter.many");}
    }
    if (x.done) {
      for (auto & s : x.seen) {MON_CHECK(names.count(s) && x.seen.count(s) == 1, "iter.once", "%s seen %zu times", show(s).c_str(), x.seen.count(s));}
      rcutils_dir_iter_end(x.it);
    }
  }
  check_empty(A, "iterators");
  unlink((base() + "/link").c_str());
  MON_CHECK(open_fds() == fds, "iter.fds", "descriptors stayed open");
  // what cannot be iterated
  put(base() + "/plain", 3);
  for (std::string bad : {base() + "/plain", D.p + "/missing/x", std::string(""), D.p + "/" + std::string(5000, 'z')}) {
    rcutils_reset_error();
    MON_CHECK(rcutils_dir_iter_start(bad.c_str(), A.get()) == nullptr, "iter.bad", "%s can be iterated", show(bad).c_str());
    MON_CHECK(rcutils_error_is_set(), "iter.bad", "no error is set for %s", show(bad).c_str());
    check_empty(A, "failed start");
  }
  MON_CHECK(open_fds() == fds, "iter.fds", "descriptors stayed open");
  rcutils_reset_error();
  c.mix(names.size()); c.mix(k); c.mix(g.next());
  if (names.size() > 4) {c.interesting();}
}

// ---------------------------------------------------------------- P29 sizes
struct Gen
{
  Rng & g;
  std::vector<uint64_t> level;      // bytes at each level (1-based)
  size_t entries = 0, links = 0, deepest = 0, longest = 0;
  bool huge = false;
  explicit Gen(Rng & r) : g(r) {}
  void fill(int at, unsigned depth, unsigned maxdepth, size_t plen, bool longnames)
  {
    if (level.size() < depth + 1) {level.resize(depth + 1);}
    deepest = std::max<size_t>(deepest, depth);
    longest = std::max(longest, plen);
    std::set<std::string> used;
    unsigned n = static_cast<unsigned>(g.below(depth == 1 ? 9 : 5));
    if (longnames && n < 2) {n = 2;}
    std::vector<std::string> subs;
    for (unsigned i = 0; i < n && entries < 150; ++i) {
      std::string nm = longnames && i == 0 ? g.str(g.range(200, 255), "abcd") : name(g);
      if (dots(nm) || !used.insert(nm).second) {continue;}
      ++entries;
      unsigned kind = static_cast<unsigned>(g.below(12));
      if (longnames && i == 0) {kind = 0;}
      if (kind < 4 && depth < maxdepth) {
        if (mkdirat(at, nm.c_str(), 0755) != 0) {continue;}
        subs.push_back(nm);
      } else if (kind == 4) {
        static const std::vector<std::string> targets = {".", "..", "nowhere", "/", "../..", "/etc/passwd"};
        std::string t = !used.empty() && g.chance(1, 2) ? *used.begin() : targets[g.below(targets.size())];
        if (symlinkat(t.c_str(), at, nm.c_str()) == 0) {++links;}
      } else if (kind == 5) {
        if (mkfifoat(at, nm.c_str(), 0644) != 0) {continue;}
      } else {
        int fd = openat(at, nm.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0644);
        if (fd < 0) {continue;}
        uint64_t size = g.chance(1, 25) ? (uint64_t(1) << (30 + g.below(5))) + g.below(3) : g.size(5000);
        if (ftruncate(fd, static_cast<off_t>(size)) != 0) {close(fd); continue;}
        close(fd);
        huge |= size > UINT32_MAX;
        level[depth] += size;
        if (g.chance(1, 10)) {
          std::string h = nm.substr(0, 200) + "-h";
          if (used.insert(h).second && linkat(at, nm.c_str(), at, h.c_str(), 0) == 0) {level[depth] += size;}
        }
      }
    }
    for (auto & s : subs) {
      size_t k = plen + 1 + s.size();
      if (k + 260 >= PATH_MAX) {continue;}
      int fd = openat(at, s.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
      if (fd < 0) {continue;}
      fill(fd, depth + 1, maxdepth, k, longnames);
      close(fd);
    }
  }
};

void sizes(Case & c)
{
  Rng & g = c.rng;
  Dir D;
  CkAlloc A("size");
  Gen t(g);
  bool longnames = g.chance(1, 8);
  int fd = open(D.p.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
  t.fill(fd, 1, static_cast<unsigned>(longnames ? 16 : g.range(1, 6)), D.p.size(), longnames);
  close(fd);
  Quiet q;
  size_t fds = open_fds();
  std::string p = D.p + (g.chance(1, 5) ? "/" : "");
  std::vector<size_t> depths = {0, 1, 2, 3, t.deepest, t.deepest + 1, SIZE_MAX, g.below(8)};
  for (size_t d : depths) {
    uint64_t exp = 0;
    for (size_t i = 1; i < t.level.size(); ++i) {if (d == 0 || i <= d) {exp += t.level[i];}}
    uint64_t got = g.next();
    Exact e(p);
    bool plain = d == 1 && g.chance(1, 2);
    rcutils_ret_t r = plain ? rcutils_calculate_directory_size(e, &got, A.get()) : rcutils_calculate_directory_size_with_recursion(e, d, &got, A.get());
    MON_CHECK(r == RCUTILS_RET_OK, "size.result", "depth %zu: returned %d", d, r);
    MON_CHECK(got == exp, "size.value", "depth %zu of a tree of depth %zu with %zu entries (%zu links, longest path %zu): %" PRIu64 ", should be %" PRIu64,
      d, t.deepest, t.entries, t.links, t.longest, got, exp);
    check_empty(A, "directory size");
  }
  MON_CHECK(open_fds() == fds, "size.fds", "descriptors stayed open");
  // a subdirectory nobody can look into, for an unprivileged user
  if (g.chance(1, 3)) {
    std::string m = D.p + "/0locked", in = m + "/in";
    mkdir(m.c_str(), 0755);
    put(in, 7);
    mkdir((D.p + "/1sub").c_str(), 0755);
    put(D.p + "/1sub/f", 9);
    chmod(m.c_str(), 0);
    Unprivileged u(true);
    DIR * probe = opendir(D.p.c_str());
    if (probe) {closedir(probe);}
    if (u.on && probe && opendir(m.c_str()) == nullptr) {
      uint64_t got = 0;
      rcutils_ret_t r = rcutils_calculate_directory_size_with_recursion(D.p.c_str(), 0, &got, A.get());
      MON_CHECK(r != RCUTILS_RET_OK, "size.unreadable", "success although a subdirectory is not readable");
      r = rcutils_calculate_directory_size(m.c_str(), &got, A.get());
      MON_CHECK(r != RCUTILS_RET_OK, "size.unreadable", "success although the directory is not readable");
      r = rcutils_calculate_directory_size(D.p.c_str(), &got, A.get());
      MON_CHECK(r == RCUTILS_RET_OK && got == (t.level.size() > 1 ? t.level[1] : 0), "size.beside-unreadable", "returned %d, %" PRIu64, r, got);
      check_empty(A, "unreadable directory");
      count("size.unreadable");
    }
  }
  // no directory at all
  uint64_t got = 0;
  std::string f = D.p + "/0file";
  put(f, 3);
  for (std::string bad : {f, D.p + "/missing/x", std::string("")}) {
    rcutils_ret_t r = rcutils_calculate_directory_size(bad.c_str(), &got, A.get());
    rcutils_ret_t s = rcutils_calculate_directory_size_with_recursion(bad.c_str(), g.below(3), &got, A.get());
    MON_CHECK(r == RCUTILS_RET_ERROR && s == RCUTILS_RET_ERROR, "size.bad", "%s: returned %d and %d", show(bad).c_str(), r, s);
  }
  MON_CHECK(rcutils_calculate_directory_size(nullptr, &got, A.get()) == RCUTILS_RET_INVALID_ARGUMENT &&
    rcutils_calculate_directory_size(p.c_str(), nullptr, A.get()) == RCUTILS_RET_INVALID_ARGUMENT &&
    rcutils_calculate_directory_size_with_recursion(nullptr, 0, &got, A.get()) == RCUTILS_RET_INVALID_ARGUMENT &&
    rcutils_calculate_directory_size_with_recursion(p.c_str(), 0, nullptr, A.get()) == RCUTILS_RET_INVALID_ARGUMENT, "size.null", "NULL was accepted");
  check_empty(A, "bad paths");
  MON_CHECK(open_fds() == fds, "size.fds", "descriptors stayed open");
  q.c.stop();
  for (auto v : t.level) {c.mix(v);}
  c.mix(t.entries); c.mix(t.links);
  if (t.deepest > 2 && t.entries > 5) {c.interesting();}
  if (t.links) {count("size.links");}
  if (t.huge) {count("size.huge");}
  if (t.longest > 2100) {count("size.long-path");}
  if (t.deepest > 3) {count("size.deep");}
  if (c.want_sample()) {c.sample(fmt("tree of depth %zu, %zu entries, %zu links, longest path %zu", t.deepest, t.entries, t.links, t.longest));}
}

// The working directory is removed: it has no entries at all.
void removed(Case & c)
{
  Rng & g = c.rng;
  CkAlloc A("removed");
  Dir D;
  int old = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
  std::string p = D.p + "/gone";
  mkdir(p.c_str(), 0755);
  if (chdir(p.c_str()) != 0) {perror("chdir"); exit(3);}
  struct Back {int fd; ~Back() {if (fchdir(fd) != 0) {abort();} close(fd);}} back{old};
  rmdir(p.c_str());
  Quiet q;
  size_t fds = open_fds();
  uint64_t got = 77;
  rcutils_ret_t r = rcutils_calculate_directory_size_with_recursion(".", g.below(3), &got, A.get());
  MON_CHECK(r != RCUTILS_RET_OK || got == 0, "removed.size", "%" PRIu64 " bytes in a removed directory", got);
  check_empty(A, "size");
  rcutils_dir_iter_t * it = rcutils_dir_iter_start(".", A.get());
  if (it) {
    unsigned n = it->entry_name ? 1 : 0;
    while (rcutils_dir_iter_next(it) && n < 10) {++n;}
    MON_CHECK(n <= 2, "removed.iter", "%u entries in a removed directory", n);
    rcutils_dir_iter_end(it);
  }
  check_empty(A, "iter");
  MON_CHECK(open_fds() == fds, "removed.fds", "descriptors stayed open");
  q.c.stop();
  count("removed");
  c.mix(g.next());
}

void reg()
{
  umask(022);
  {Capture once(stderr, 2);}      // sanitizer reports keep their descriptor
  section("predicates", 3000, 60000, predicates);
  section("cwd", 800, 10000, cwd);
  section("mkdir", 1500, 30000, mkdirs);
  section("paths", 20000, 600000, paths);
  section("listing", 1200, 20000, listing);
  section("sizes", 1500, 30000, sizes);
  section("removed", 8, 80, removed);
}
}  // namespace
MON_MAIN(reg)
