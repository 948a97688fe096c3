// P46: what belongs to the whole process, or lies outside of it, is left alone.
//
// A program's surroundings (working directory, file mode mask, locale, environment, signal handling, descriptors and streams, rounding, random numbers, the static
// results and the hidden positions of C library functions, limits, timers, children, the files around) are prepared in an unusual way and recorded before and after
// every piece of work. Calls that change them for all threads are seen while the work is done as well, even if they are undone afterwards.
#include <fenv.h>
#include <getopt.h>
#include <pwd.h>
#include <sched.h>
#include <signal.h>
#include <stdio_ext.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <wchar.h>
#include "works.hpp"
#include "rcutils/find.h"
#include "rcutils/isalnum_no_locale.h"
#include "rcutils/logging_macros.h"
#include "rcutils/snprintf.h"
#include "rcutils/strcasecmp.h"

extern char ** environ;

// ---------------------------------------------------------------- calls that are felt by every thread at once
static std::atomic<int> g_watching{0};
static std::atomic<bool> g_may_setenv{false};
static char g_called[64];
static std::atomic<int> g_calls{0};
static void note(const char * what)
{
  if (!g_watching) {return;}
  if (g_may_setenv && strstr(what, "env")) {return;}
  if (g_calls++ == 0) {snprintf(g_called, sizeof(g_called), "%s", what);}
}
#define WATCH(ret, name, params, args) extern "C" ret __real_ ## name params; extern "C" ret __wrap_ ## name params {note(#name); return __real_ ## name args;}
WATCH(int, chdir, (const char * p), (p))
WATCH(int, fchdir, (int f), (f))
WATCH(mode_t, umask, (mode_t m), (m))
extern "C" char * __real_setlocale(int, const char *);
extern "C" char * __wrap_setlocale(int c, const char * l) {if (l) {note("setlocale");} return __real_setlocale(c, l);}
WATCH(int, setenv, (const char * n, const char * v, int o), (n, v, o))
WATCH(int, unsetenv, (const char * n), (n))
WATCH(int, putenv, (char * s), (s))
WATCH(int, clearenv, (), ())
typedef void (* Handler)(int);
WATCH(Handler, signal, (int s, Handler h), (s, h))
extern "C" int __real_sigaction(int, const struct sigaction *, struct sigaction *);
extern "C" int __wrap_sigaction(int s, const struct sigaction * n, struct sigaction * o) {if (n) {note("sigaction");} return __real_sigaction(s, n, o);}
WATCH(unsigned, alarm, (unsigned n), (n))
WATCH(void, srand, (unsigned s), (s))
WATCH(void, srandom, (unsigned s), (s))
WATCH(pid_t, fork, (), ())
WATCH(int, system, (const char * s), (s))
WATCH(FILE *, popen, (const char * s, const char * m), (s, m))
WATCH(int, raise, (int s), (s))
WATCH(int, kill, (pid_t p, int s), (p, s))
WATCH(int, chmod, (const char * p, mode_t m), (p, m))
WATCH(int, unlink, (const char * p), (p))
WATCH(int, rmdir, (const char * p), (p))
WATCH(int, remove, (const char * p), (p))
WATCH(int, rename, (const char * p, const char * q), (p, q))
WATCH(int, truncate, (const char * p, off_t o), (p, o))

// ---------------------------------------------------------------- what is recorded
typedef std::map<std::string, std::string> Snap;
static std::string hex(const void * p, size_t n) {std::string r; for (size_t i = 0; i < n; ++i) {r += fmt("%02x", static_cast<const unsigned char *>(p)[i]);} return r;}

static void tree(const std::string & dir, const std::string & name, Snap & s, int depth = 0)
{
  DIR * d = opendir(dir.c_str());
  if (!d) {return;}
  while (struct dirent * e = readdir(d)) {
    std::string n = e->d_name, p = dir + "/" + n;
    struct stat st;
    if (n == ".." || (n == "made") || lstat(p.c_str(), &st)) {continue;}
    // the time of a directory changes with the one the work makes in it
    bool isdir = S_ISDIR(st.st_mode);
    s["file " + name + "/" + n] = fmt("mode %o owner %d:%d size %lld changed %lld.%ld inode %llu links %lld", st.st_mode, st.st_uid, st.st_gid, isdir ? 0ll : static_cast<long long>(st.st_size),
        isdir ? 0ll : static_cast<long long>(st.st_mtim.tv_sec), isdir ? 0l : st.st_mtim.tv_nsec, static_cast<unsigned long long>(st.st_ino),
        isdir ? 0ll : static_cast<long long>(st.st_nlink));
    if (isdir && n != "." && depth < 4) {tree(p, name + "/" + n, s, depth + 1);}
  }
  closedir(d);
}

static void stream(const char * name, FILE * f, Snap & s)
{
  s[std::string(name) + " buffer"] = fmt("%zu bytes, line buffered %d", __fbufsize(f), __flbf(f));
  s[std::string(name) + " state"] = fmt("error %d eof %d width %d fd %d readable %d writable %d locking %d", ferror(f), feof(f), fwide(f, 0), fileno(f), __freadable(f), __fwritable(f),
      __fsetlocking(f, FSETLOCKING_QUERY));
}

static char g_random[128];
static bool g_setting = false;      // the work sets ENV_NAME
static const char ENV_NAME[] = "WORLD_SETTING";

static Snap snap(const std::string & top)
{
  Snap s;
  char b[4096];
  struct stat st;
  s["working directory"] = getcwd(b, sizeof(b)) ? b : fmt("error %d", errno);
  if (!stat(".", &st)) {s["working directory"] += fmt(" %llu:%llu", static_cast<unsigned long long>(st.st_dev), static_cast<unsigned long long>(st.st_ino));}
  FILE * f = fopen("/proc/self/status", "r");
  while (f && fgets(b, sizeof(b), f)) {
    for (const char * k : {"Umask:", "SigBlk:", "SigIgn:", "NoNewPrivs:", "Seccomp:", "CapEff:", "Uid:", "Gid:", "Groups:"}) {
      if (!strncmp(b, k, strlen(k))) {s[std::string("status ") + k] = b;}
    }
  }
  if (f) {fclose(f);}
  for (int i = 1; i < 65; ++i) {
    struct sigaction a;
    memset(&a, 0, sizeof(a));
    if (!__real_sigaction(i, nullptr, &a)) {s[fmt("action of signal %02d", i)] = fmt("%p flags %x mask %s", reinterpret_cast<void *>(a.sa_handler), a.sa_flags, hex(&a.sa_mask, 8).c_str());}
  }
  s["locale"] = setlocale(LC_ALL, nullptr);
  s["thread locale"] = fmt("%p", static_cast<void *>(uselocale(nullptr)));
  size_t n = 0;
  for (char ** e = environ; e && *e; ++e, ++n) {
    if (g_setting && !strncmp(*e, ENV_NAME, sizeof(ENV_NAME) - 1) && (*e)[sizeof(ENV_NAME) - 1] == '=') {continue;}
    s["variable " + std::string(*e, strcspn(*e, "="))] = fmt("%p %s", static_cast<void *>(*e), *e);
  }
  if (!g_setting) {s["environment"] = fmt("%p %zu", static_cast<void *>(environ), n);}
  DIR * d = opendir("/proc/self/fd");
  while (struct dirent * e = d ? readdir(d) : nullptr) {
    int fd = atoi(e->d_name);
    if (e->d_name[0] == '.' || fd == dirfd(d)) {continue;}
    ssize_t k = readlink(("/proc/self/fd/" + std::string(e->d_name)).c_str(), b, sizeof(b) - 1);
    b[k < 0 ? 0 : k] = 0;
    off_t at = (fd > 2 || fd == 0) && !strstr(b, "/world/printed") ? lseek(fd, 0, SEEK_CUR) : 0;
    s[fmt("descriptor %d", fd)] = fmt("%s flags %x/%x at %lld", b, fcntl(fd, F_GETFD), fcntl(fd, F_GETFL), static_cast<long long>(at));
  }
  if (d) {closedir(d);}
  stream("stdin", stdin, s); stream("stdout", stdout, s); stream("stderr", stderr, s);
  s["rounding"] = fmt("%d, traps %d", fegetround(), fegetexcept());
  s["random numbers"] = hex(g_random, sizeof(g_random));
  unsigned short seed[3] = {1, 2, 3}, was[3];
  memcpy(was, seed48(seed), sizeof(was));
  (void)seed48(was);
  s["drand48"] = hex(was, sizeof(was));
  s["getopt"] = fmt("%d %d %d %p", optind, opterr, optopt, static_cast<void *>(optarg));
  for (int i = 0; i < 3; ++i) {struct itimerval t; getitimer(static_cast<__itimer_which>(i), &t); s[fmt("timer %d", i)] = fmt("%d %d", t.it_interval.tv_sec != 0, t.it_value.tv_sec != 0);}
  for (int i = 0; i < 16; ++i) {struct rlimit r = {0, 0}; getrlimit(static_cast<__rlimit_resource>(i), &r); s[fmt("limit %d", i)] = fmt("%llu %llu", static_cast<unsigned long long>(r.rlim_cur), static_cast<unsigned long long>(r.rlim_max));}
  char name[32] = "";
  prctl(PR_GET_NAME, name);
  s["identity"] = fmt("%s group %d session %d priority %d dumpable %d policy %d", name, getpgrp(), getsid(0), getpriority(PRIO_PROCESS, 0), prctl(PR_GET_DUMPABLE), sched_getscheduler(0));
  s["children"] = fmt("%d", waitpid(-1, nullptr, WNOHANG) < 0 ? errno : 0);
  int o = 0;
  pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &o); s["cancellation"] = fmt("%d", o); pthread_setcancelstate(o, nullptr);
  pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &o); s["cancellation"] += fmt(" %d", o); pthread_setcanceltype(o, nullptr);
  tree(top, "", s);
  return s;
}

// results of C library functions a program may still hold, and positions within its own data these functions remember
struct Held
{
  struct tm * local; struct tm * universal; char * text; char * error; struct passwd * user; char tokens[32] = "first,second,third"; char * first;
  struct tm local_was, universal_was; std::string text_was, error_was, user_was;
  char * variable; std::string variable_was;
  struct lconv * conv; std::string conv_was;
  std::string signal_was; char * signal_text;
  Held()
  {
    time_t t = 86400 * 365, u = 86400 * 7777;
    text = ctime(&t);
    text_was = text;
    // the two share their storage
    universal = gmtime(&t);
    local = localtime(&u);
    local_was = *local;
    universal_was = *universal;
    error = strerror(7777777);
    error_was = error;
    user = getpwuid(1);
    user_was = user ? std::string(user->pw_name) + user->pw_dir + user->pw_shell : "";
    first = strtok(tokens, ",");
    variable = getenv("WORLD_KEPT");
    variable_was = variable;
    conv = localeconv();
    conv_was = std::string(conv->decimal_point) + "|" + conv->thousands_sep;
    signal_text = strsignal(4000);
    signal_was = signal_text;
    (void)mblen(nullptr, 0);
  }
  const char * changed()
  {
    if (memcmp(local, &local_was, sizeof(local_was)) || memcmp(universal, &universal_was, sizeof(universal_was))) {return "result of localtime() or gmtime()";}
    if (text_was != text) {return "result of ctime() or asctime()";}
    if (error_was != error) {return "result of strerror()";}
    if (user && user_was != std::string(user->pw_name) + user->pw_dir + user->pw_shell) {return "result of getpwuid()";}
    if (variable_was != variable || getenv("WORLD_KEPT") != variable) {return "result of getenv()";}
    if (conv_was != std::string(conv->decimal_point) + "|" + conv->thousands_sep) {return "result of localeconv()";}
    if (signal_was != signal_text) {return "result of strsignal()";}
    char * second = strtok(nullptr, ",");
    if (second != tokens + 6 || strcmp(second, "second")) {return "position of strtok()";}
    return nullptr;
  }
};

// ---------------------------------------------------------------- further kinds of work
struct RestartsWork : Work
{
  bool to_stdout;
  explicit RestartsWork(Rng & g) : to_stdout(g.chance(1, 3))
  {
    what = "logging started and stopped";
    setenv("RCUTILS_LOGGING_USE_STDOUT", to_stdout ? "1" : "0", 1);
    setenv("RCUTILS_COLORIZED_OUTPUT", g.chance(1, 2) ? "1" : "0", 1);
    if (g.chance(1, 2)) {setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", "[{severity}] {name} {time} {date_time_with_ms} {message} {line_number}", 1);}
  }
  ~RestartsWork()
  {
    for (const char * n : {"RCUTILS_LOGGING_USE_STDOUT", "RCUTILS_COLORIZED_OUTPUT", "RCUTILS_CONSOLE_OUTPUT_FORMAT"}) {unsetenv(n);}
  }
  void cycle(Rng & g) override
  {
    OK(rcutils_logging_initialize());
    rcutils_logging_set_output_handler(g.chance(1, 2) ? quiet : rcutils_logging_console_output_handler);
    for (int i = 0; i < 8; ++i) {
      const char * n = log_names[g.below(8)];
      switch (g.below(4)) {
        case 0: OK(rcutils_logging_set_logger_level(n, 10 * static_cast<int>(g.below(6)))); break;
        case 1: RCUTILS_LOG_WARN_NAMED(n, "%s", g.str(g.size(3000), "message ").c_str()); break;
        case 2: RCUTILS_LOG_ERROR("%d", 5); break;
        default: (void)rcutils_logging_get_logger_effective_level(n); break;
      }
    }
    OK(rcutils_logging_shutdown());
  }
};
struct SettingWork : Work
{
  explicit SettingWork(Rng &) {what = "one variable set";}
  void cycle(Rng & g) override
  {
    const char * v = nullptr;
    std::string s = g.str(g.size(300), "value=");
    MON_CHECK(rcutils_set_env(ENV_NAME, s.c_str()), "world.operation", "set_env");
    MON_CHECK(!rcutils_get_env(ENV_NAME, &v) && s == v, "world.operation", "get_env");
    MON_CHECK(!rcutils_set_env("BAD=NAME", "x"), "world.operation", "set_env"); rcutils_reset_error();
    if (g.chance(1, 2)) {MON_CHECK(rcutils_set_env(ENV_NAME, nullptr), "world.operation", "set_env");}
  }
};
struct PathsWork : Work
{
  std::string top;
  int n = 0;
  explicit PathsWork(Rng &, std::string t) : top(t) {what = "paths, also missing and unreadable ones";}
  void cycle(Rng & g) override
  {
    // with names as long as possible as well
    static const std::string long_dir(250, 'd'), long_file = long_dir + "/" + std::string(250, 'f');
    static const char * names[] = {long_dir.c_str(), long_file.c_str(), "plain", "deep", "deep/er", "secret", "none", "link", "loop", "pipe", ".", "..", "", "deep/er/file"};
    for (int i = 0; i < 6; ++i) {
      std::string p = g.chance(1, 3) ? names[g.below(14)] : top + "/" + names[g.below(14)];
      uint64_t z = 0;
      switch (g.below(8)) {
        case 0: (void)rcutils_exists(p.c_str()); (void)rcutils_is_directory(p.c_str()); (void)rcutils_is_file(p.c_str()); break;
        case 1: (void)rcutils_is_readable(p.c_str()); (void)rcutils_is_writable(p.c_str()); (void)rcutils_is_readable_and_writable(p.c_str()); break;
        case 2: if (p.find("pipe") == p.npos) {(void)rcutils_get_file_size(p.c_str());} break;
        case 3: (void)rcutils_calculate_directory_size(p.c_str(), &z, al()); break;
        case 4: (void)rcutils_calculate_directory_size_with_recursion(p.c_str(), g.below(4), &z, al()); break;
        case 5: {
            rcutils_dir_iter_t * it = rcutils_dir_iter_start(p.c_str(), al());
            for (uint64_t k = g.below(9); it && k && rcutils_dir_iter_next(it); --k) {}
            rcutils_dir_iter_end(it);
            break;
          }
        case 6: free(rcutils_join_path(p.c_str(), "x", al())); free(rcutils_expand_user("~/x", al())); free(rcutils_to_native_path(p.c_str(), al())); break;
        default: {char b[64]; (void)rcutils_get_cwd(b, g.range(1, 64)); if (!rcutils_exists(p.c_str())) {continue;} (void)rcutils_mkdir(p.c_str());} break;
      }
      rcutils_reset_error();
    }
  }
};
// a directory is made as the mask of the program says
struct MakingWork : Work
{
  std::string top;
  explicit MakingWork(Rng &, std::string t) : top(t) {what = "directories made";}
  void cycle(Rng &) override
  {
    std::string p = top + "/made";
    MON_CHECK(rcutils_mkdir(p.c_str()), "world.operation", "mkdir");
    MON_CHECK(rcutils_mkdir(p.c_str()), "world.operation", "mkdir again");
  }
};
struct SmallWork : Work
{
  explicit SmallWork(Rng &) {what = "small helpers";}
  void cycle(Rng & g) override
  {
    for (int i = 0; i < 10; ++i) {
      std::string s = g.str(g.size(300), "aBc/.%s"), t = g.str(g.size(9), "aBc");
      int v = 0;
      char b[80];
      const char * argv[] = {"prog", "--one", "two", s.c_str()};
      rcutils_time_point_value_t tp = static_cast<int64_t>(g.next() >> g.below(40));
      switch (g.below(8)) {
        case 0: (void)rcutils_strcasecmp(s.c_str(), t.c_str(), &v); (void)rcutils_strncasecmp(s.c_str(), t.c_str(), 5, &v); break;
        case 1: (void)rcutils_find(s.c_str(), '/'); (void)rcutils_find_last(s.c_str(), '/'); (void)rcutils_isalnum_no_locale('x'); break;
        case 2: (void)rcutils_snprintf(b, 1 + g.below(80), "%s %.3f %d", s.c_str(), 1.5, 7); (void)rcutils_snprintf(nullptr, 0, "%s", s.c_str()); break;
        case 3: (void)rcutils_cli_option_exist(const_cast<char **>(argv), const_cast<char **>(argv + 4), "--one"); (void)rcutils_cli_get_option(const_cast<char **>(argv), const_cast<char **>(argv + 4), "--one"); break;
        case 4: (void)rcutils_get_pid(); free(rcutils_get_executable_name(al())); break;
        case 5: errno = static_cast<int>(g.below(140)); rcutils_strerror(b, 1 + g.below(80)); break;
        case 6: (void)rcutils_time_point_value_as_date_string(&tp, b, 1 + g.below(80)); (void)rcutils_time_point_value_as_nanoseconds_string(&tp, b, 80); break;
        default: (void)rcutils_steady_time_now(&tp); (void)rcutils_system_time_now(&tp); (void)rcutils_allocator_is_valid(nullptr); break;
      }
    }
    rcutils_reset_error();
  }
};

// ---------------------------------------------------------------- a program and its surroundings
static void on_signal(int) {}
static void prepare(const std::string & top, Rng & g)
{
  mkdir(top.c_str(), 0777);
  for (const char * d : {"/deep", "/deep/er", "/secret", "/elsewhere"}) {mkdir((top + d).c_str(), 0755);}
  std::string long_dir = "/" + std::string(250, 'd'), long_file = long_dir + "/" + std::string(250, 'f');
  mkdir((top + long_dir).c_str(), 0755);
  for (const char * p : {long_file.c_str(), "/plain", "/deep/a", "/deep/er/file", "/secret/x"}) {
    FILE * f = fopen((top + p).c_str(), "w");
    if (f) {fputs("some content", f); fclose(f);}
  }
  (void)!symlink("plain", (top + "/link").c_str());
  (void)!symlink("loop", (top + "/loop").c_str());
  mkfifo((top + "/pipe").c_str(), 0600);
  chmod((top + "/secret").c_str(), 0);
  (void)g;
}
static const unsigned KINDS = WORKS + 5;
static void alone(Case & c)
{
  Rng & g = c.rng;
  static const std::string base = run().scratch + "/world";
  static const std::string top = base + "/files";
  static bool first = true;
  if (first) {
    first = false;
    mkdir(base.c_str(), 0777);
    prepare(top, g);
    setenv("WORLD_KEPT", "kept value", 1);
    (void)initstate(12345, g_random, sizeof(g_random));
    // a file to read from, and another place for what is printed
    std::string in = base + "/input";
    FILE * f = fopen(in.c_str(), "w");
    if (f) {for (int i = 0; i < 1000; ++i) {fputs("input\n", f);} fclose(f);}
    int fd = open(in.c_str(), O_RDONLY);
    dup2(fd, 0);
    close(fd);
    (void)getchar();
  }
  rcutils_fault_injection_set_count(-1);
  unsigned kind = static_cast<unsigned>(c.idx) % KINDS;
  if (kind == 10) {kind = WORKS;}   // does some of the above itself
  // the surroundings
  static const mode_t masks[] = {0, 022, 077, 027, 0777, 0137};
  mode_t mask = masks[g.below(6)], old_mask = umask(mask);
  static const char * dirs[] = {"", "/deep", "/deep/er", "/elsewhere"};
  std::string cwd = top + dirs[g.below(4)];
  char was[4096];
  if (!getcwd(was, sizeof(was))) {was[0] = 0;}
  if (chdir(cwd.c_str())) {fail("world.harness", "chdir");}
  static const int rounding[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
  const int round = rounding[g.below(4)];
  sigset_t block, old_block;
  sigemptyset(&block);
  if (g.chance(1, 2)) {sigaddset(&block, SIGUSR2); sigaddset(&block, SIGPIPE);}
  pthread_sigmask(SIG_BLOCK, &block, &old_block);
  struct sigaction pipe_was, usr_was, chld_was, act;
  memset(&act, 0, sizeof(act));
  act.sa_handler = g.chance(1, 2) ? on_signal : SIG_IGN;
  sigaction(SIGPIPE, &act, &pipe_was);
  sigaction(SIGUSR1, &act, &usr_was);
  act.sa_handler = g.chance(1, 2) ? on_signal : SIG_DFL;
  sigaction(SIGCHLD, &act, &chld_was);
  bool utf = g.chance(1, 2);
  setlocale(LC_ALL, utf ? "C.UTF-8" : "C");
  optind = static_cast<int>(g.range(1, 5));
  srand48(static_cast<long>(g.next() >> 40));
  srandom(static_cast<unsigned>(g.next()));
  int extra = open((top + "/plain").c_str(), O_RDONLY | (g.chance(1, 2) ? O_CLOEXEC : 0) | (g.chance(1, 2) ? O_NONBLOCK : 0));
  if (extra >= 0) {lseek(extra, static_cast<off_t>(g.below(9)), SEEK_SET);}
  std::string what;
  {
    std::unique_ptr<Work> w;
    mode_t m = umask(022);
    if (kind < WORKS) {
      w = make(g, kind);
    } else if (kind == WORKS) {
      w = std::make_unique<RestartsWork>(g);
    } else if (kind == WORKS + 1) {
      w = std::make_unique<SettingWork>(g);
    } else if (kind == WORKS + 2) {
      w = std::make_unique<PathsWork>(g, top);
    } else if (kind == WORKS + 3) {
      w = std::make_unique<MakingWork>(g, top);
    } else {
      w = std::make_unique<SmallWork>(g);
    }
    umask(m);
    what = w->what;
    g_setting = kind == WORKS + 1;
    g_may_setenv = g_setting || kind == 14;
    if (kind == 14) {setenv("STEADY_VARIABLE", "always the same", 1);}
    // the stream for logging may be set up the first time something is logged; printing decides on its buffer and width
    bool may_print = kind == 8 || kind == 16 || kind == 9 || kind == WORKS || kind == 12 || kind == WORKS + 2;
    fflush(stdout);
    fprintf(stdout, "%s", "");
    fwide(stdout, -1);
    fwide(stderr, -1);
    // where what is printed goes to
    std::string sink = base + "/printed";
    int so = dup(1), se = dup(2), fd = open(sink.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600), fd2 = open((sink + "2").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
    fflush(stderr);
    // the streams have been used before
    int none = open("/dev/null", O_WRONLY);
    dup2(none, 1); dup2(none, 2);
    fputs("x\n", stdout); fflush(stdout); fputs("x\n", stderr); fflush(stderr);
    dup2(se, 2); close(none);
    dup2(fd, 1); if (kind != 9) {dup2(fd2, 2);}
    const unsigned cycles = 1 + static_cast<unsigned>(g.below(3));
    std::string bad, how;
    long long out = 0, err = 0;
    size_t recorded = 0;
    for (unsigned i = 0; i < cycles && bad.empty(); ++i) {
      rmdir((top + "/made").c_str());
      Rng r(g.next());
      g_calls = 0;
      Held h;
      fesetround(round);
      Snap before = snap(top);
      g_watching = 1;
      w->cycle(r);
      g_watching = 0;
      Snap after = snap(top);
      fesetround(FE_TONEAREST);
      recorded += before.size();
      if (const char * ch = h.changed()) {bad = "world.static"; how = ch;}
      for (auto & p : before) {
        auto q = after.find(p.first);
        if (q == after.end()) {bad = "world.changed"; how = p.first + " gone: " + p.second;} else if (q->second != p.second) {
          bad = "world.changed"; how = p.first + ": " + q->second + ", before " + p.second;
        }
      }
      for (auto & p : after) {if (!before.count(p.first)) {bad = "world.changed"; how = p.first + " new: " + p.second;}}
      if (g_calls) {bad = "world.meanwhile"; how = fmt("%s() was called (%d such calls)", g_called, g_calls.load());}
      if (kind == WORKS + 3) {
        struct stat st;
        if (stat((top + "/made").c_str(), &st) || !S_ISDIR(st.st_mode)) {
          bad = "world.operation"; how = "no directory made";
        } else if (st.st_mode & mask & 0777) {
          bad = "world.mask"; how = fmt("directory made with mode %o though the mask is %o", st.st_mode & 07777, mask);
        } else {
          count("world.modes");
        }
      }
    }
    fflush(stdout);
    fflush(stderr);
    struct stat st;
    char printed[200] = "";
    if (!fstat(fd, &st)) {out = st.st_size;}
    if (!fstat(fd2, &st)) {err = st.st_size;}
    if (out || err) {printed[std::max<ssize_t>(0, pread(out ? fd : fd2, printed, sizeof(printed) - 1, 0))] = 0;}
    dup2(so, 1); if (kind != 9) {dup2(se, 2);}
    close(so); close(se); close(fd); close(fd2);
    bool own_stdout = kind == WORKS && static_cast<RestartsWork *>(w.get())->to_stdout;
    MON_CHECK(bad.empty(), bad, "%s: %s", what.c_str(), how.c_str());
    // (an injected fault is announced)
    MON_CHECK(out == 0 || own_stdout || kind == 15, "world.stdout", "%s: %lld bytes on standard output: %s", what.c_str(), out, printed);
    MON_CHECK(err == 0 || may_print || kind == 15, "world.stderr", "%s: %lld bytes on standard error: %s", what.c_str(), err, printed);
    c.interesting();
    c.mix(kind); c.mix(mask); c.mix(hash_str(cwd.data(), cwd.size())); c.mix(static_cast<uint64_t>(round));
    count("world." + what);
    count("world.recorded", recorded);
    count(fmt("world.round %d", round));
    if (c.want_sample()) {c.sample(fmt("%s, %u cycles in %s with mask %o: %zu facts unchanged", what.c_str(), cycles, cwd.c_str() + base.size(), mask, recorded));}
  }
  rmdir((top + "/made").c_str());
  if (extra >= 0) {close(extra);}
  optind = 1;
  setlocale(LC_ALL, "C");
  unsetenv(ENV_NAME);
  g_setting = false;
  g_may_setenv = false;
  sigaction(SIGPIPE, &pipe_was, nullptr);
  sigaction(SIGUSR1, &usr_was, nullptr);
  sigaction(SIGCHLD, &chld_was, nullptr);
  pthread_sigmask(SIG_SETMASK, &old_block, nullptr);
  umask(old_mask);
  if (was[0] && chdir(was)) {fail("world.harness", "chdir");}
}

static void register_all()
{
  section("world", 660, 132000, alone);
}
MON_MAIN(register_all)
