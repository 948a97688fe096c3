// Shared libraries (P30), environment and process queries (P31).
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <spawn.h>
#include <sys/wait.h>
#include <climits>

#include "mon.hpp"
#include "rcutils/env.h"
#include "rcutils/process.h"
#include "rcutils/shared_library.h"

using namespace mon;
extern char ** environ;

namespace
{
std::string aux()
{
  static std::string d;
  if (d.empty()) {
    char b[PATH_MAX];
    ssize_t n = readlink("/proc/self/exe", b, sizeof(b) - 1);
    std::string e(b, n > 0 ? static_cast<size_t>(n) : 0);
    d = e.substr(0, e.rfind('/')) + "/aux";
  }
  return d;
}

// ---------------------------------------------------------------- P30
struct Slot
{
  CkAlloc A{"lib"};
  rcutils_shared_library_t l = rcutils_get_zero_initialized_shared_library();
  int which = -1;              // index of the test library, 100 for libm, -1 for none
};
const char * LETTERS = "abc";

void check_symbol(Slot & s, const std::string & n)
{
  Exact e(n);
  rcutils_reset_error();
  void * got = rcutils_get_symbol(&s.l, e);
  bool err = rcutils_error_is_set();
  rcutils_reset_error();
  bool has = rcutils_has_symbol(&s.l, e);
  MON_CHECK(!rcutils_error_is_set(), "symbol.error", "has_symbol set an error");
  void * exp = s.which < 0 ? nullptr : dlsym(s.l.lib_pointer, n.c_str());
  dlerror();
  MON_CHECK(got == exp, "symbol.address", "%s resolved to %p, the dynamic linker says %p", show(n, 60).c_str(), got, exp);
  MON_CHECK(has == (exp != nullptr), "symbol.has", "has_symbol(%s) is %d", show(n, 60).c_str(), has);
  MON_CHECK(err == (exp == nullptr), "symbol.error", "get_symbol(%s): error set: %d", show(n, 60).c_str(), err);
  if (exp && (s.which < 3 || s.which == 9)) {
    if (n == "mon_calls_shared") {
      int id = reinterpret_cast<int (*)()>(reinterpret_cast<intptr_t>(got))();
      MON_CHECK(id == s.which + 1, "symbol.interposed", "library %d calls a function of library %d for its own", s.which + 1, id);
      count("symbol.own");
    } else if (n == "mon_id") {
      int id = reinterpret_cast<int (*)()>(reinterpret_cast<intptr_t>(got))();
      MON_CHECK(id == s.which + 1, "symbol.other", "the symbol belongs to library %d, not %d", id, s.which + 1);
      count("symbol.called");
    } else if (n == "mon_data") {
      MON_CHECK(*static_cast<int *>(got) == 1001 + s.which, "symbol.other", "wrong data");
    }
  }
  count(exp ? "symbol.found" : "symbol.missing");
}

std::string resolved(const std::string & p)
{
  char b[PATH_MAX];
  return realpath(p.c_str(), b) ? std::string(b) : p;
}

void libraries(Case & c)
{
  Rng & g = c.rng;
  Slot s[4];
  unsigned steps = static_cast<unsigned>(g.range(8, 40)), loads = 0, unloads = 0;
  std::string dir = aux();
  for (unsigned i = 0; i < steps; ++i) {
    unsigned k = static_cast<unsigned>(g.below(4));
    Slot & x = s[k];
    switch (g.below(6)) {
      case 0: case 1: {
          int w = static_cast<int>(g.below(3));
          std::string file = dir + "/libmon_" + LETTERS[w] + ".so", path = file;
          switch (g.below(12)) {
            case 0: path = dir + "/link_" + LETTERS[w] + ".so"; break;
            case 1: path = dir + "/../" + dir.substr(dir.rfind('/') + 1) + "//./libmon_" + LETTERS[w] + ".so"; break;
            case 2: path = "libm.so.6"; w = 100; break;
            case 3: path = dir + "/missing.so"; w = -1; break;
            case 4: path = dir + "/text.so"; w = -1; break;
            case 5: path = dir; w = -1; break;
            case 6: path = "libmon_" + std::string(1, LETTERS[w]) + ".so.7"; break;     // known by its soname only while loaded
            case 7: path = dir + "/" + g.str(g.pick(std::vector<size_t>{10, 300, 1100, 3000}), "xyz") + "%s%n.so"; w = -1; break;
            case 8: path = dir + "/libmon_needs.so"; w = -1; break;
            case 9: path = dir + "/libmon_lazy.so"; w = 9; break;                        // refers to a function defined nowhere
            default: break;
          }
          void * probe = dlopen(path.c_str(), RTLD_LAZY);
          if (probe) {dlclose(probe);} else {w = -1;}
          dlerror();
          rcutils_shared_library_t before = x.l;
          Exact e(path);
          rcutils_reset_error();
          rcutils_ret_t r = rcutils_load_shared_library(&x.l, e, x.A.get());
          tr(fmt("load %u %s -> %d", k, show(path, 60).c_str(), r));
          raise();
          if (x.which >= 0) {
            MON_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "load.loaded", "returned %d", r);
            MON_CHECK(memcmp(&before, &x.l, sizeof(before)) == 0, "load.loaded", "the loaded library was changed");
            MON_CHECK(rcutils_error_is_set(), "load.error", "no error set");
            count("load.refused");
          } else if (w < 0) {
            MON_CHECK(r == RCUTILS_RET_ERROR, "load.missing", "returned %d", r);
            MON_CHECK(rcutils_error_is_set(), "load.error", "no error set");
            MON_CHECK(!rcutils_is_shared_library_loaded(&x.l) && x.l.library_path == nullptr, "load.missing", "not empty after a failed load");
            check_empty(x.A, "failed load");
            count("load.failed");
          } else {
            MON_CHECK(r == RCUTILS_RET_OK, "load.result", "returned %d: %s", r, rcutils_get_error_string().str);
            x.which = w;
            MON_CHECK(x.l.library_path && owned_by(x.l.library_path, x.A), "load.path", "the path is not from the allocator");
            if (w < 3 || w == 9) {
              if (w == 9) {file = path; count("load.lazy");}
              MON_CHECK(resolved(x.l.library_path) == resolved(file), "load.path", "the path is %s", show(x.l.library_path).c_str());
            } else {
              struct link_map * m = nullptr;
              dlinfo(x.l.lib_pointer, RTLD_DI_LINKMAP, &m);
              MON_CHECK(m && !strcmp(m->l_name, x.l.library_path) && strstr(x.l.library_path, "libm"), "load.path", "the path is %s", show(x.l.library_path).c_str());
            }
            void * h = dlopen(x.l.library_path, RTLD_LAZY | RTLD_NOLOAD);
            MON_CHECK(h == x.l.lib_pointer, "load.handle", "handle %p, the dynamic linker says %p", x.l.lib_pointer, h);
            if (h) {dlclose(h);}
            MON_CHECK(x.A.live_blocks == 1, "load.blocks", "%zu blocks", x.A.live_blocks);
            ++loads;
            count("load.ok");
          }
          break;
        }
      case 2: {
          rcutils_reset_error();
          rcutils_ret_t r = rcutils_unload_shared_library(&x.l);
          tr(fmt("unload %u -> %d", k, r));
          raise();
          if (x.which < 0) {
            MON_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && rcutils_error_is_set(), "unload.empty", "returned %d", r);
            count("unload.refused");
          } else {
            MON_CHECK(r == RCUTILS_RET_OK, "unload.result", "returned %d", r);
            MON_CHECK(x.l.lib_pointer == nullptr && x.l.library_path == nullptr, "unload.state", "not empty");
            check_empty(x.A, "unload");
            int w = x.which;
            x.which = -1;
            ++unloads;
            bool still = false;
            for (auto & y : s) {still |= y.which == w;}
            if (w < 3) {
              void * h = dlopen((dir + "/libmon_" + LETTERS[w] + ".so").c_str(), RTLD_LAZY | RTLD_NOLOAD);
              MON_CHECK((h != nullptr) == still, "unload.effect", "library is%s loaded although %s", h ? "" : " not", still ? "in use" : "all were unloaded");
              if (h) {dlclose(h);}
              dlerror();
              count(still ? "unload.shared" : "unload.last");
            }
          }
          break;
        }
      case 3: if (g.chance(1, 2)) {dlopen("/nowhere/at/all.so", RTLD_LAZY);}         // leaves a dlerror behind
        // fallthrough
      default: {
          static const std::vector<std::string> names = {"mon_id", "mon_data", "mon_only_in_a", "mon_only_in_b", "mon_only_in_c", "mon_hidden",
            "mon_static", "mon_null", "mon_uses", "mon_calls_shared", "mon_calls_shared", "", "cos", "printf", "mon_ID", "mon_i", "mon_idx", "%s%n", "main", "rcutils_get_symbol",
            "mon_a_symbol_with_a_rather_long_name_which_goes_on_and_on_until_it_is_longer_than_most_buffers_one_would_reserve_for_it_"
            "00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"};
          std::string n = g.chance(1, 12) ? g.cstr(g.pick(std::vector<size_t>{3, 500, 1024, 2000, 5000})) : g.pick(names);
          check_symbol(x, n);
          MON_CHECK(rcutils_is_shared_library_loaded(&x.l) == (x.which >= 0), "loaded", "is_loaded is wrong");
          MON_CHECK(dlsym(RTLD_DEFAULT, "mon_id") == nullptr, "symbol.global", "the symbols of a loaded library reach the whole process");
          dlerror();
          break;
        }
    }
    c.mix(k);
  }
  MON_CHECK(rcutils_get_symbol(nullptr, "x") == nullptr && !rcutils_has_symbol(nullptr, "x") && rcutils_get_symbol(&s[0].l, nullptr) == nullptr &&
    !rcutils_has_symbol(&s[0].l, nullptr), "symbol.null", "NULL was accepted");
  MON_CHECK(rcutils_unload_shared_library(nullptr) == RCUTILS_RET_INVALID_ARGUMENT, "unload.null", "NULL");
  for (auto & x : s) {
    if (x.which >= 0) {MON_CHECK(rcutils_unload_shared_library(&x.l) == RCUTILS_RET_OK, "unload.result", "at the end");}
    check_empty(x.A, "library");
  }
  rcutils_reset_error();
  c.mix(loads); c.mix(g.next());
  if (loads >= 2 && unloads >= 1) {c.interesting();}
  if (c.want_sample()) {c.sample(fmt("%u steps: %u loads, %u unloads", steps, loads, unloads));}
}

void platform_names(Case & c)
{
  Rng & g = c.rng;
  std::string n = g.chance(1, 2) ? g.str(g.below(30), "abc_./") : g.chance(1, 2) ? g.cstr(g.size(4000)) : "%s%n" + g.str(g.below(10), "%d");
  bool debug = g.chance(1, 2);
  std::string exp = "lib" + n + (debug ? "d" : "") + ".so";
  size_t need = exp.size() + 1;
  size_t cap = g.chance(1, 3) ? need : g.chance(1, 2) ? need - 1 - g.below(std::min<size_t>(need, 10)) : g.chance(1, 2) ? need + g.below(50) : g.below(2 * need);
  char * b = static_cast<char *>(malloc(cap ? cap : 1));
  memset(b, '#', cap ? cap : 1);
  Exact e(n);
  rcutils_reset_error();
  rcutils_ret_t r = rcutils_get_platform_library_name(e, b, static_cast<unsigned>(cap), debug);
  if (cap >= need) {
    MON_CHECK(r == RCUTILS_RET_OK, "name.result", "buffer of %zu for %zu: returned %d", cap, need, r);
    MON_CHECK(exp == b, "name.value", "%s, should be %s", show(b).c_str(), show(exp).c_str());
    count(cap == need ? "name.exact" : "name.ok");
  } else {
    MON_CHECK(r == RCUTILS_RET_ERROR && rcutils_error_is_set(), "name.result", "buffer of %zu for %zu: returned %d", cap, need, r);
    count("name.small");
  }
  for (size_t i = need; i < cap; ++i) {MON_CHECK(b[i] == '#', "name.beyond", "byte %zu behind the name was written", i);}
  free(b);
  char z[20];
  MON_CHECK(rcutils_get_platform_library_name(nullptr, z, 20, debug) == RCUTILS_RET_INVALID_ARGUMENT &&
    rcutils_get_platform_library_name("x", nullptr, 20, debug) == RCUTILS_RET_INVALID_ARGUMENT, "name.null", "NULL");
  rcutils_reset_error();
  c.mix(n); c.mix(cap * 2 + debug);
  c.interesting();
}

// ---------------------------------------------------------------- P31
using Env = std::map<std::string, std::string>;
Env snapshot()
{
  Env m;
  for (char ** p = environ; p && *p; ++p) {
    std::string s = *p;
    size_t k = s.find('=', 1);
    if (k != std::string::npos) {m[s.substr(0, k)] = s.substr(k + 1);}
  }
  return m;
}
Env in_child()
{
  Env m;
  int fd[2];
  if (pipe(fd) != 0) {return m;}
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_adddup2(&fa, fd[1], 1);
  posix_spawn_file_actions_addclose(&fa, fd[0]);
  char a0[] = "env", a1[] = "-0";
  char * av[] = {a0, a1, nullptr};
  pid_t p;
  int rc = posix_spawn(&p, "/usr/bin/env", &fa, nullptr, av, environ);
  posix_spawn_file_actions_destroy(&fa);
  close(fd[1]);
  std::string out;
  if (rc == 0) {
    char b[65536];
    ssize_t n;
    while ((n = read(fd[0], b, sizeof(b))) > 0) {out.append(b, static_cast<size_t>(n));}
    int st;
    waitpid(p, &st, 0);
  }
  close(fd[0]);
  if (rc != 0) {m["#failed"] = ""; return m;}
  for (size_t i = 0; i < out.size(); ) {
    size_t e = out.find('\0', i);
    if (e == std::string::npos) {break;}
    std::string s = out.substr(i, e - i);
    size_t k = s.find('=', 1);
    if (k != std::string::npos) {m[s.substr(0, k)] = s.substr(k + 1);}
    i = e + 1;
  }
  return m;
}

std::string diff(const Env & a, const Env & b)
{
  for (auto & x : a) {
    auto it = b.find(x.first);
    if (it == b.end()) {return show(x.first, 40) + " is set to " + show(x.second, 60) + ", should not be";}
    if (it->second != x.second) {return show(x.first, 40) + " is " + show(x.second, 60) + ", should be " + show(it->second, 60);}
  }
  for (auto & x : b) {if (!a.count(x.first)) {return show(x.first, 40) + " is not set, should be " + show(x.second, 60);}}
  return "";
}

void env(Case & c)
{
  Rng & g = c.rng;
  Env model = snapshot();
  const Env original = model;
  std::vector<std::string> names = {"MON_A", "MON_AB", "MON_", "mon_a", "HOME", "M", "MON_A B", "MON_A%s"};
  for (unsigned i = 0; i < 3; ++i) {
    std::string n = g.cstr(g.range(1, 12));
    std::replace(n.begin(), n.end(), '=', '_');
    names.push_back(n);
  }
  unsigned steps = static_cast<unsigned>(g.range(5, 30)), changes = 0;
  for (unsigned i = 0; i < steps; ++i) {
    std::string n = g.pick(names);
    bool bad = g.chance(1, 10);
    if (bad) {n = g.pick(std::vector<std::string>{"", "=", "MON_A=", "MON_A=x", "=x", "a=b=c"});}
    std::string v = g.chance(1, 6) ? "" : g.chance(1, 6) ? "a=b=" + g.cstr(g.below(10)) : g.chance(1, 20) ? g.cstr(g.below(60000)) : g.cstr(g.below(30));
    bool null = g.chance(1, 5);
    c.mix(n);
    Exact en(n), ev(v);
    rcutils_reset_error();
    switch (g.below(4)) {
      case 0: {
          bool r = rcutils_set_env(en, null ? nullptr : ev.operator const char *());
          tr(fmt("set %s %s -> %d", show(n, 20).c_str(), null ? "NULL" : show(v, 20).c_str(), r));
          MON_CHECK(r == !bad, "set.result", "%d", r);
          MON_CHECK(rcutils_error_is_set() == bad, "set.error", "error set: %d", rcutils_error_is_set());
          if (!bad) {
            if (null) {model.erase(n); count("env.unset");} else {model[n] = v; count("env.set");}
            ++changes;
          } else {count("env.bad");}
          break;
        }
      case 1: {
          if (bad && getenv(n.c_str())) {break;}
          bool over = g.chance(1, 3), there = model.count(n) != 0;
          bool r = rcutils_set_env_overwrite(en, null ? nullptr : ev.operator const char *(), over);
          tr(fmt("set %s %s %s -> %d", show(n, 20).c_str(), null ? "NULL" : show(v, 20).c_str(), over ? "overwriting" : "keeping", r));
          MON_CHECK(r == !bad, "set.result", "%d", r);
          if (!bad && (over || !there)) {
            if (null) {model.erase(n);} else {model[n] = v;}
            ++changes;
          }
          if (!bad && !over && there) {count("env.kept");}
          break;
        }
      default: {
          if (bad) {break;}
          const char * got = "#";
          const char * r = rcutils_get_env(en, &got);
          MON_CHECK(r == nullptr, "get.result", "%s", show(r).c_str());
          MON_CHECK(got && got == (model.count(n) ? model[n] : std::string()), "get.value", "%s is %s, should be %s", show(n, 40).c_str(), show(got).c_str(),
            model.count(n) ? show(model[n]).c_str() : "empty");
          count(model.count(n) ? "get.present" : "get.absent");
        }
    }
    std::string d = diff(snapshot(), model);
    MON_CHECK(d.empty(), "env.state", "%s", d.c_str());
    const char * h = rcutils_get_home_dir();
    auto it = model.find("HOME");
    if (it == model.end() || it->second.empty()) {
      MON_CHECK(h == nullptr, "home", "%s without HOME", show(h).c_str());
      count("home.none");
    } else {MON_CHECK(h && it->second == h, "home", "%s, should be %s", show(h).c_str(), show(it->second).c_str());}
  }
  const char * z = nullptr;
  MON_CHECK(rcutils_get_env(nullptr, &z) != nullptr && rcutils_get_env("HOME", nullptr) != nullptr, "get.null", "NULL was accepted");
  MON_CHECK(!rcutils_set_env(nullptr, "x") && !rcutils_set_env_overwrite(nullptr, "x", true) && !rcutils_set_env_overwrite(nullptr, nullptr, false), "set.null", "NULL was accepted");
#ifdef MON_MEMCHECK
  const bool children = false;    // valgrind changes the environment of child processes
#else
  const bool children = true;
#endif
  if (children && c.idx % 16 == 0) {
    Env ch = in_child();
    if (!ch.count("#failed")) {
      ch.erase("_");
      Env m = model;
      m.erase("_");
      std::string d = diff(ch, m);
      MON_CHECK(d.empty(), "env.child", "in a child process: %s", d.c_str());
      count("env.child");
    }
  }
  rcutils_reset_error();
  for (auto & n : names) {
    if (original.count(n)) {setenv(n.c_str(), original.at(n).c_str(), 1);} else {unsetenv(n.c_str());}
  }
  if (changes > 3) {c.interesting();}
  if (c.want_sample()) {c.sample(fmt("%u steps, %u changes", steps, changes));}
}

std::string base_of(std::string p)
{
  if (p.empty()) {return ".";}
  while (p.size() > 1 && p.back() == '/') {p.pop_back();}
  if (p == "/") {return p;}
  return p.substr(p.rfind('/') == std::string::npos ? 0 : p.rfind('/') + 1);
}

void process(Case & c)
{
  Rng & g = c.rng;
  std::string p;
  switch (g.below(7)) {
    case 0: p = ""; break;
    case 1: p = g.str(g.below(6), "/a."); break;
    case 2: p = "/usr/" + g.str(g.below(30), "abc/") + g.cstr(g.below(20)); break;
    case 3: p = g.cstr(g.below(5000)); break;
    case 4: p = "./" + g.str(g.range(1, 20), "ab") + std::string(g.below(4), '/'); break;
    case 5: p = "%s%n/" + g.str(g.below(4), "%s"); break;
    default: p = g.str(g.below(10), "ab "); break;
  }
  CkAlloc A("exe");
  char * saved = program_invocation_name;
  {
    Exact e(p);
    program_invocation_name = e.p;
    char * r = rcutils_get_executable_name(A.get());
    program_invocation_name = saved;
    raise();
    MON_CHECK(r != nullptr && owned_by(r, A), "exe.result", "no block of the allocator");
    MON_CHECK(base_of(p) == r || (p.empty() && *r == 0), "exe.value", "%s for %s", show(r).c_str(), show(p).c_str());
    MON_CHECK(memcmp(e.p, p.c_str(), p.size() + 1) == 0, "exe.input", "the invocation name was modified");
    A.get().deallocate(r, &A);
  }
  check_empty(A, "executable name");
  MON_CHECK(rcutils_get_pid() == static_cast<int>(getpid()), "pid", "%d, should be %d", rcutils_get_pid(), static_cast<int>(getpid()));
  if (c.idx % 32 == 0) {
    pid_t k = fork();
    if (k == 0) {_exit(rcutils_get_pid() == static_cast<int>(getpid()) ? 0 : 1);}
    int st = 0;
    waitpid(k, &st, 0);
    MON_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "pid.child", "wrong process id after fork (status %d)", st);
    count("pid.child");
  }
  count(p.empty() ? "exe.empty" : p.find('/') == std::string::npos ? "exe.plain" : p.back() == '/' ? "exe.trailing" : "exe.path");
  c.mix(p);
  c.interesting();
}

void reg()
{
  section("libraries", 4000, 100000, libraries);
  section("platform-names", 20000, 400000, platform_names);
  section("env", 4000, 80000, env);
  section("process", 12000, 200000, process);
}
}  // namespace
MON_MAIN(reg)
