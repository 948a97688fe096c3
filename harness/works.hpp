// Kinds of work with the library which leave things as they found them, to be repeated by P39 and watched by P46.
#ifndef WORKS_HPP_
#define WORKS_HPP_
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <thread>
#include "mon.hpp"
#include "rcutils/allocator.h"
#include "rcutils/cmdline_parser.h"
#include "rcutils/env.h"
#include "rcutils/error_handling.h"
#include "rcutils/filesystem.h"
#include "rcutils/format_string.h"
#include "rcutils/logging.h"
#include "rcutils/process.h"
#include "rcutils/qsort.h"
#include "rcutils/repl_str.h"
#include "rcutils/sha256.h"
#include "rcutils/shared_library.h"
#include "rcutils/split.h"
#include "rcutils/strdup.h"
#include "rcutils/strerror.h"
#include "rcutils/testing/fault_injection.h"
#include "rcutils/time.h"
#include "rcutils/types.h"
#include "rcutils/types/hash_map.h"

using namespace mon;


#ifndef WORKS_OK
#define WORKS_OK
#define OK(x) do {rcutils_ret_t r_ = (x); if (r_ != RCUTILS_RET_OK) {fail("steady.operation", fmt("%s: %d: %s", #x, r_, rcutils_get_error_string().str));}} while (0)
#endif

// a piece of work that is repeated with the same numbers; `fresh` ones get other numbers every time and stay within a bound
struct Work
{
  virtual ~Work() {}
  virtual void cycle(Rng & g) = 0;
  bool fresh = false;
  long limit_blocks = 0, limit_bytes = 0;   // for fresh ones: beyond what there was before
  const char * what = "";
};

static rcutils_allocator_t al() {return rcutils_get_default_allocator();}

struct ListWork : Work
{
  rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
  size_t ds, n;
  explicit ListWork(Rng & g) : ds(g.range(1, 60)), n(g.chance(1, 6) ? g.range(70, 600) : g.range(1, 70))
  {
    what = "list";
    auto a = al();
    OK(rcutils_array_list_init(&l, 1 + g.below(5), ds, &a));
  }
  ~ListWork() {(void)rcutils_array_list_fini(&l);}
  void cycle(Rng & g) override
  {
    std::string s = g.bytes(ds);
    size_t m = g.range(1, n), z = 0;
    for (size_t i = 0; i < m; ++i) {OK(rcutils_array_list_add(&l, s.data()));}
    for (size_t i = 0; i < m; ++i) {
      OK(rcutils_array_list_get_size(&l, &z));
      OK(rcutils_array_list_set(&l, g.below(z), s.data()));
      OK(rcutils_array_list_get(&l, g.below(z), &s[0]));
      OK(rcutils_array_list_remove(&l, g.below(z)));
    }
  }
};

static size_t whash(const void * k) {uint64_t v; memcpy(&v, k, 8); return mix64(v);}
static int wcmp(const void * a, const void * b) {return memcmp(a, b, 8);}
struct MapWork : Work
{
  rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
  size_t vs, n, cap;
  uint64_t next = 1;
  std::vector<uint64_t> live;
  bool window;    // entries come and go one by one rather than all at once
  MapWork(Rng & g, bool f)
  : vs(g.range(1, 40)), n(g.chance(1, 4) ? g.range(60, 300) : g.range(1, 60)), cap(g.range(1, 40)), window(f && g.chance(1, 2))
  {
    what = window ? "map, keys come and go" : f ? "map, new keys" : "map";
    fresh = f;
    auto a = al();
    OK(rcutils_hash_map_init(&m, cap, 8, vs, whash, wcmp, &a));
    size_t c = 1;
    while (c < cap || c * 3 < n * 4 + 8) {c *= 2;}
    c *= 2;
    limit_blocks = static_cast<long>(3 * n + 2 * c + 64);
    limit_bytes = static_cast<long>(n * (96 + vs) + c * (200 + 16 * 8) + 8192);
  }
  ~MapWork() {(void)rcutils_hash_map_fini(&m);}
  void cycle(Rng & g) override
  {
    std::string v = g.bytes(vs);
    if (window) {
      for (size_t i = 0; i < n; ++i) {
        if (live.size() == n) {
          size_t at = g.below(n);
          OK(rcutils_hash_map_unset(&m, &live[at]));
          live[at] = live.back();
          live.pop_back();
        }
        OK(rcutils_hash_map_set(&m, &next, v.data()));
        live.push_back(next++);
      }
      size_t z = 0;
      OK(rcutils_hash_map_get_size(&m, &z));
      MON_CHECK(z == live.size(), "steady.operation", "%zu entries instead of %zu", z, live.size());
      return;
    }
    uint64_t base = fresh ? next : 1;
    for (size_t i = 0; i < n; ++i) {
      uint64_t k = base + i;
      OK(rcutils_hash_map_set(&m, &k, v.data()));
      if (i % 3 == 0) {OK(rcutils_hash_map_set(&m, &k, v.data()));}
    }
    uint64_t k = 0;
    rcutils_ret_t r = rcutils_hash_map_get_next_key_and_data(&m, nullptr, &k, &v[0]);
    size_t seen = 0;
    while (r == RCUTILS_RET_OK) {++seen; r = rcutils_hash_map_get_next_key_and_data(&m, &k, &k, &v[0]);}
    MON_CHECK(seen == n, "steady.operation", "%zu entries instead of %zu", seen, n);
    for (size_t i = 0; i < n; ++i) {
      k = base + i;
      OK(rcutils_hash_map_unset(&m, &k));
      if (i % 4 == 0) {OK(rcutils_hash_map_unset(&m, &k));}
    }
    next += n;
  }
};

struct StringMapWork : Work
{
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
  size_t n;
  uint64_t next = 1;
  std::vector<uint64_t> live;
  bool window;
  StringMapWork(Rng & g, bool f) : n(g.chance(1, 4) ? g.range(40, 200) : g.range(1, 40)), window(f && g.chance(1, 2))
  {
    what = window ? "string map, keys come and go" : f ? "string map, new keys" : "string map";
    fresh = f;
    OK(rcutils_string_map_init(&m, g.below(10), al()));
    limit_blocks = static_cast<long>(2 * n + 40);
    limit_bytes = static_cast<long>(n * 150 + (4 * n + 20) * 16 + 4096);
  }
  ~StringMapWork() {(void)rcutils_string_map_fini(&m);}
  void cycle(Rng & g) override
  {
    if (window) {
      for (size_t i = 0; i < n; ++i) {
        if (live.size() == n) {
          size_t at = g.below(n);
          OK(rcutils_string_map_unset(&m, ("key" + std::to_string(live[at])).c_str()));
          live[at] = live.back();
          live.pop_back();
        }
        OK(rcutils_string_map_set(&m, ("key" + std::to_string(next)).c_str(), g.str(g.below(40), "abc").c_str()));
        live.push_back(next++);
      }
      size_t z = 0;
      OK(rcutils_string_map_get_size(&m, &z));
      MON_CHECK(z == live.size(), "steady.operation", "%zu entries instead of %zu", z, live.size());
      return;
    }
    uint64_t base = fresh ? next : 1;
    next += n;
    for (size_t i = 0; i < n; ++i) {
      std::string k = "key" + std::to_string(base + i), v = g.str(g.below(40), "abc");
      OK(rcutils_string_map_set(&m, k.c_str(), v.c_str()));
      OK(rcutils_string_map_set(&m, k.c_str(), "x"));
    }
    if (!fresh && g.chance(1, 2)) {
      rcutils_string_map_t o = rcutils_get_zero_initialized_string_map();
      OK(rcutils_string_map_init(&o, 0, al()));
      OK(rcutils_string_map_copy(&m, &o));
      OK(rcutils_string_map_fini(&o));
    }
    if (g.chance(1, 3)) {
      OK(rcutils_string_map_clear(&m));
    } else {
      for (size_t i = 0; i < n; ++i) {OK(rcutils_string_map_unset(&m, ("key" + std::to_string(base + i)).c_str()));}
    }
  }
};

struct StringArrayWork : Work
{
  rcutils_string_array_t s = rcutils_get_zero_initialized_string_array();
  explicit StringArrayWork(Rng & g)
  {
    what = "string array";
    auto a = al();
    OK(rcutils_string_array_init(&s, g.range(1, 9), &a));
  }
  ~StringArrayWork() {(void)rcutils_string_array_fini(&s);}
  void cycle(Rng & g) override
  {
    size_t n = s.size;
    for (int i = 0; i < 6; ++i) {
      OK(rcutils_string_array_resize(&s, g.range(1, 60)));
      for (size_t k = 0; k < s.size; ++k) {
        if (g.chance(1, 2)) {free(s.data[k]); s.data[k] = rcutils_strdup(g.str(g.below(50), "xyz").c_str(), al());}
      }
      OK(rcutils_qsort(s.data, s.size, sizeof(char *), rcutils_string_array_sort_compare));
      int c = 0;
      if (s.data[s.size - 1]) {OK(rcutils_string_array_cmp(&s, &s, &c));}
    }
    OK(rcutils_string_array_resize(&s, 1));
    free(s.data[0]);
    s.data[0] = nullptr;
    OK(rcutils_string_array_resize(&s, n));
  }
};

struct CharsWork : Work
{
  rcutils_char_array_t c = rcutils_get_zero_initialized_char_array();
  rcutils_uint8_array_t b = rcutils_get_zero_initialized_uint8_array();
  explicit CharsWork(Rng & g)
  {
    what = "char and byte arrays";
    auto a = al();
    OK(rcutils_char_array_init(&c, g.below(40), &a));
    OK(rcutils_uint8_array_init(&b, g.below(40), &a));
  }
  ~CharsWork() {(void)rcutils_char_array_fini(&c); (void)rcutils_uint8_array_fini(&b);}
  static rcutils_ret_t print(rcutils_char_array_t * c, const char * f, ...)
  {
    va_list v;
    va_start(v, f);
    rcutils_ret_t r = rcutils_char_array_vsprintf(c, f, v);
    va_end(v);
    return r;
  }
  void cycle(Rng & g) override
  {
    for (int i = 0; i < 8; ++i) {
      std::string s = g.str(g.size(900), "abcdef ");
      switch (g.below(6)) {
        case 0: OK(rcutils_char_array_strcpy(&c, s.c_str())); break;
        case 1: OK(print(&c, "%s-%d", s.c_str(), 5)); break;
        case 2: OK(rcutils_char_array_strcpy(&c, "")); for (int k = 0; k < 9; ++k) {OK(rcutils_char_array_strcat(&c, s.c_str()));} break;
        case 3: OK(rcutils_char_array_memcpy(&c, s.c_str(), s.size() + 1)); break;
        case 4: OK(rcutils_char_array_expand_as_needed(&c, s.size() + 1)); break;
        default: OK(rcutils_uint8_array_resize(&b, 1 + s.size())); break;
      }
    }
  }
};

// objects that live for one cycle
struct ObjectsWork : Work
{
  explicit ObjectsWork(Rng &) {what = "short-lived objects";}
  void cycle(Rng & g) override
  {
    for (int i = 0; i < 3; ++i) {
      {ListWork w(g); w.cycle(g);}
      {MapWork w(g, false); w.cycle(g);}
      {StringMapWork w(g, false); w.cycle(g);}
      {StringArrayWork w(g); w.cycle(g);}
      {CharsWork w(g); w.cycle(g);}
    }
  }
};

struct ErrorsWork : Work
{
  explicit ErrorsWork(Rng &) {what = "errors";}
  void cycle(Rng & g) override
  {
    for (int i = 0; i < 12; ++i) {
      std::string s = g.str(g.size(1500), "error ");
      switch (g.below(4)) {
        case 0: rcutils_reset_error(); RCUTILS_SET_ERROR_MSG(s.c_str()); break;
        case 1: rcutils_reset_error(); RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%s %d", s.c_str(), 7); break;
        case 2: rcutils_reset_error(); (void)rcutils_get_error_string(); (void)rcutils_get_error_state(); break;
        default: MON_CHECK(rcutils_error_is_set() == (rcutils_get_error_string().str[0] != 0) || !rcutils_error_is_set(), "steady.operation", "error state"); break;
      }
    }
    rcutils_reset_error();
    char b[200];
    rcutils_strerror(b, sizeof(b));
  }
};

static long handled;
static void quiet(const rcutils_log_location_t *, int, const char *, rcutils_time_point_value_t, const char * f, va_list * a)
{
  char b[300];
  va_list v;
  va_copy(v, *a);
  handled += vsnprintf(b, sizeof(b), f, v);
  va_end(v);
}
static const char * log_names[] = {"a", "a.b", "a.b.c", "q", "q.r.s.t", "", "long.name.of.a.logger.with.many.parts", ".x"};
struct LoggingWork : Work
{
  int saved = -1;
  explicit LoggingWork(Rng & g)
  {
    what = "logging";
    static const char * formats[] = {"[{severity}] {message}", "{time} {time_as_nanoseconds} {date_time_with_ms} {name} {message} {file_name}:{line_number} {function_name}", "{message}"};
    setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", formats[g.below(3)], 1);
    setenv("RCUTILS_COLORIZED_OUTPUT", g.chance(1, 2) ? "1" : "0", 1);
    OK(rcutils_logging_initialize_with_allocator(al()));
    fflush(stderr);
    saved = dup(2);
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2);
    close(fd);
  }
  ~LoggingWork()
  {
    (void)rcutils_logging_shutdown();
    fflush(stderr);
    dup2(saved, 2);
    close(saved);
    unsetenv("RCUTILS_CONSOLE_OUTPUT_FORMAT");
    unsetenv("RCUTILS_COLORIZED_OUTPUT");
  }
  void cycle(Rng & g) override
  {
    static const rcutils_log_location_t loc = {"function", "file", 12};
    for (int i = 0; i < 20; ++i) {
      const char * n = log_names[g.below(8)];
      switch (g.below(5)) {
        case 0: OK(rcutils_logging_set_logger_level(n, 10 * static_cast<int>(g.below(6)))); break;
        case 1: (void)rcutils_logging_get_logger_effective_level(n); (void)rcutils_logging_logger_is_enabled_for(n, 20); break;
        case 2: rcutils_logging_set_output_handler(g.chance(1, 2) ? quiet : rcutils_logging_console_output_handler); break;
        case 3: rcutils_logging_set_default_logger_level(10 * static_cast<int>(g.range(1, 5))); break;
        default: rcutils_log(&loc, 10 * static_cast<int>(g.range(1, 5)), n, "%s %d", g.str(g.size(4000), "message ").c_str(), 9); break;
      }
    }
  }
};
struct LoggingCycleWork : Work
{
  explicit LoggingCycleWork(Rng &) {what = "logging restarts";}
  void cycle(Rng & g) override {for (int i = 0; i < 4; ++i) {LoggingWork w(g); w.cycle(g);}}
};

struct TextWork : Work
{
  explicit TextWork(Rng &) {what = "strings";}
  void cycle(Rng & g) override
  {
    auto a = al();
    for (int i = 0; i < 10; ++i) {
      std::string s = g.str(g.size(700), "ab/.-");
      rcutils_string_array_t t = rcutils_get_zero_initialized_string_array();
      int sev = 0;
      uint8_t h[32];
      char buf[64];
      rcutils_time_point_value_t tp = static_cast<int64_t>(g.next() >> 2);
      switch (g.below(10)) {
        case 0: OK(rcutils_split(s.c_str(), '/', a, &t)); OK(rcutils_string_array_fini(&t)); break;
        case 1: OK(rcutils_split_last(s.c_str(), '/', a, &t)); OK(rcutils_string_array_fini(&t)); break;
        case 2: free(rcutils_repl_str(s.c_str(), "ab", "cde", &a)); break;
        case 3: free(rcutils_format_string(a, "%s %zu", s.c_str(), s.size())); break;
        case 4: free(rcutils_strndup(s.c_str(), s.size() / 2, a)); free(rcutils_join_path(s.c_str(), "x", a)); free(rcutils_expand_user(s.c_str(), a)); break;
        case 5: free(rcutils_to_native_path(s.c_str(), a)); break;
        case 6: (void)rcutils_logging_severity_level_from_string(i % 2 ? "warn" : s.c_str(), a, &sev); rcutils_reset_error(); break;
        case 7: {
            std::vector<int32_t> many(i % 2 ? 64 : 65 + g.below(600));
            for (int32_t & v : many) {v = static_cast<int32_t>(g.next());}
            OK(rcutils_qsort(many.data(), many.size(), 4, [](const void * x, const void * y) {int32_t p, q; memcpy(&p, x, 4); memcpy(&q, y, 4); return p < q ? -1 : p > q;}));
            break;
          }
        case 8: {rcutils_sha256_ctx_t c; rcutils_sha256_init(&c); rcutils_sha256_update(&c, reinterpret_cast<const uint8_t *>(s.data()), s.size()); rcutils_sha256_final(&c, h);} break;
        default: OK(rcutils_time_point_value_as_date_string(&tp, buf, 64)); OK(rcutils_time_point_value_as_seconds_string(&tp, buf, 64)); OK(rcutils_system_time_now(&tp)); break;
      }
    }
  }
};

struct FilesWork : Work
{
  std::string d;
  explicit FilesWork(Rng & g)
  {
    what = "files";
    d = run().scratch + "/steady";
    mkdir(d.c_str(), 0777);
    size_t n = g.range(1, 12);
    for (size_t i = 0; i < n; ++i) {
      std::string p = d + "/e" + std::to_string(i);
      if (i % 3 == 1) {mkdir(p.c_str(), 0777); p += "/f";}
      FILE * f = fopen(p.c_str(), "w");
      if (f) {fputs("content", f); fclose(f);}
    }
  }
  ~FilesWork()
  {
    for (int i = 0; i < 12; ++i) {
      std::string p = d + "/e" + std::to_string(i);
      unlink((p + "/f").c_str());
      rmdir(p.c_str());
      unlink(p.c_str());
    }
    rmdir((d + "/made").c_str());
    rmdir(d.c_str());
  }
  void cycle(Rng & g) override
  {
    for (int i = 0; i < 4; ++i) {
      uint64_t z = 0;
      switch (g.below(6)) {
        case 0: OK(rcutils_calculate_directory_size_with_recursion(d.c_str(), 0, &z, al())); break;
        case 1: (void)(rcutils_calculate_directory_size((d + "/none").c_str(), &z, al())); rcutils_reset_error(); break;
        case 2: {
            rcutils_dir_iter_t * it = rcutils_dir_iter_start(d.c_str(), al());
            MON_CHECK(it, "steady.operation", "listing");
            for (uint64_t k = g.below(9); k && rcutils_dir_iter_next(it); --k) {}
            rcutils_dir_iter_end(it);
            break;
          }
        case 3: MON_CHECK(!rcutils_dir_iter_start((d + "/none").c_str(), al()), "steady.operation", "listing"); rcutils_reset_error(); break;
        case 4: MON_CHECK(rcutils_mkdir((d + "/made").c_str()) && rcutils_is_directory((d + "/made").c_str()), "steady.operation", "mkdir"); break;
        default: {char b[4096]; MON_CHECK(rcutils_get_cwd(b, sizeof(b)), "steady.operation", "cwd"); (void)rcutils_get_file_size((d + "/e0").c_str());} break;
      }
    }
  }
};

struct LibrariesWork : Work
{
  rcutils_shared_library_t keep = rcutils_get_zero_initialized_shared_library();
  std::string dir = run().scratch + "/../aux";
  explicit LibrariesWork(Rng & g)
  {
    what = "shared libraries";
    if (g.chance(1, 2)) {OK(rcutils_load_shared_library(&keep, (dir + "/libmon_a.so").c_str(), al()));}
  }
  ~LibrariesWork() {if (keep.lib_pointer) {(void)rcutils_unload_shared_library(&keep);}}
  void cycle(Rng & g) override
  {
    static const char * names[] = {"libmon_a.so", "libmon_b.so", "link_a.so", "libmon_lazy.so"};
    static const char * bad[] = {"nothing.so", "text.so", "libmon_needs.so"};
    for (int i = 0; i < 4; ++i) {
      rcutils_shared_library_t l = rcutils_get_zero_initialized_shared_library();
      if (g.chance(1, 3)) {
        MON_CHECK(rcutils_load_shared_library(&l, (dir + "/" + bad[g.below(3)]).c_str(), al()) != RCUTILS_RET_OK, "steady.operation", "load");
        rcutils_reset_error();
        continue;
      }
      OK(rcutils_load_shared_library(&l, (dir + "/" + names[g.below(4)]).c_str(), al()));
      (void)rcutils_has_symbol(&l, "mon_id");
      (void)rcutils_get_symbol(&l, "no_such_symbol");
      rcutils_reset_error();
      OK(rcutils_unload_shared_library(&l));
    }
  }
};

struct ProcessWork : Work
{
  explicit ProcessWork(Rng &) {what = "process and environment";}
  void cycle(Rng & g) override
  {
    const char * v = nullptr;
    for (int i = 0; i < 6; ++i) {
      switch (g.below(4)) {
        case 0: free(rcutils_get_executable_name(al())); break;
        case 1: MON_CHECK(rcutils_set_env("STEADY_VARIABLE", "always the same"), "steady.operation", "set_env"); break;
        case 2: MON_CHECK(!rcutils_get_env("STEADY_VARIABLE", &v), "steady.operation", "get_env"); (void)rcutils_get_home_dir(); break;
        default: MON_CHECK(!rcutils_set_env("BAD=NAME", "x"), "steady.operation", "set_env"); rcutils_reset_error(); break;
      }
    }
  }
};

// operations that fail: allocations, injected faults, invalid arguments
struct FailingWork : Work
{
  explicit FailingWork(Rng &) {what = "failing operations";}
  static thread_local long left;
  static void * fa(size_t n, void *) {return left-- > 0 ? malloc(n) : nullptr;}
  static void fd(void * p, void *) {free(p);}
  static void * fr(void * p, size_t n, void *) {return left-- > 0 ? realloc(p, n) : nullptr;}
  static void * fc(size_t c, size_t n, void *) {return left-- > 0 ? calloc(c, n) : nullptr;}
  void cycle(Rng & g) override
  {
    std::string dir = run().scratch + "/../aux/libmon_a.so";
    for (int i = 0; i < 8; ++i) {
      bool injected = g.chance(1, 2);
      left = injected ? 1000000 : static_cast<long>(g.below(7));
      rcutils_allocator_t a = {fa, fd, fr, fc, nullptr};
      rcutils_fault_injection_set_count(injected ? static_cast<int>(g.below(7)) : -1);
      rcutils_string_array_t t = rcutils_get_zero_initialized_string_array();
      rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
      rcutils_string_map_t s = rcutils_get_zero_initialized_string_map();
      rcutils_shared_library_t l = rcutils_get_zero_initialized_shared_library();
      rcutils_char_array_t c = rcutils_get_zero_initialized_char_array();
      uint64_t k = 5, z = 0;
      switch (g.below(8)) {
        case 0: if (rcutils_split("a/b/c/d", '/', a, &t) == RCUTILS_RET_OK) {rcutils_fault_injection_set_count(-1); (void)rcutils_string_array_fini(&t);} break;
        case 1:
          if (rcutils_hash_map_init(&m, 4, 8, 8, whash, wcmp, &a) == RCUTILS_RET_OK) {
            for (; k < 14; ++k) {(void)rcutils_hash_map_set(&m, &k, &k);}
            rcutils_fault_injection_set_count(-1);
            (void)rcutils_hash_map_fini(&m);
          }
          break;
        case 2:
          if (rcutils_string_map_init(&s, 1, a) == RCUTILS_RET_OK) {
            for (int q = 0; q < 4; ++q) {(void)rcutils_string_map_set(&s, q % 2 ? "one" : "two", q > 2 ? "x" : "value");}
            rcutils_fault_injection_set_count(-1);
            (void)rcutils_string_map_fini(&s);
          }
          break;
        case 3: if (rcutils_load_shared_library(&l, dir.c_str(), a) == RCUTILS_RET_OK) {rcutils_fault_injection_set_count(-1); (void)rcutils_unload_shared_library(&l);} break;
        case 4: {char * p = rcutils_repl_str("a-b-c", "-", "++", &a); free(p); p = rcutils_format_string(a, "%d", 5); free(p); p = rcutils_get_executable_name(a); free(p);} break;
        case 5: (void)rcutils_calculate_directory_size("/proc/self/attr", &z, a); break;
        case 6: {rcutils_dir_iter_t * it = rcutils_dir_iter_start(run().scratch.c_str(), a); rcutils_fault_injection_set_count(-1); rcutils_dir_iter_end(it);} break;
        default:
          if (rcutils_char_array_init(&c, 4, &a) == RCUTILS_RET_OK) {
            (void)rcutils_char_array_strcpy(&c, "something longer than four");
            (void)rcutils_char_array_strcat(&c, "something longer than four");
            rcutils_fault_injection_set_count(-1);
            (void)rcutils_char_array_fini(&c);
          }
      }
      rcutils_fault_injection_set_count(-1);
      rcutils_reset_error();
    }
  }
};
thread_local long FailingWork::left = 0;

struct ThreadsWork : Work
{
  explicit ThreadsWork(Rng &) {what = "threads";}
  void cycle(Rng & g) override
  {
    uint64_t seed = g.next();
    std::thread([seed]() {
        Rng r(seed);
        if (r.chance(3, 4)) {RCUTILS_SET_ERROR_MSG(r.str(r.size(1200), "thread ").c_str());}
        if (r.chance(1, 2)) {(void)rcutils_get_error_string();}
        if (r.chance(1, 3)) {rcutils_reset_error();}
        if (r.chance(1, 2)) {(void)rcutils_initialize_error_handling_thread_local_storage(al());}
        auto a = al();
        free(rcutils_repl_str("a-b", "-", "+", &a));
      }).join();
  }
};

static std::unique_ptr<Work> make(Rng & g, unsigned k)
{
  switch (k) {
    case 0: return std::make_unique<ListWork>(g);
    case 1: return std::make_unique<MapWork>(g, false);
    case 2: return std::make_unique<MapWork>(g, true);
    case 3: return std::make_unique<StringMapWork>(g, false);
    case 4: return std::make_unique<StringMapWork>(g, true);
    case 5: return std::make_unique<StringArrayWork>(g);
    case 6: return std::make_unique<CharsWork>(g);
    case 7: return std::make_unique<ObjectsWork>(g);
    case 8: return std::make_unique<ErrorsWork>(g);
    case 9: return std::make_unique<LoggingWork>(g);
    case 10: return std::make_unique<LoggingCycleWork>(g);
    case 11: return std::make_unique<TextWork>(g);
    case 12: return std::make_unique<FilesWork>(g);
    case 13: return std::make_unique<LibrariesWork>(g);
    case 14: return std::make_unique<ProcessWork>(g);
    case 15: return std::make_unique<FailingWork>(g);
    default: return std::make_unique<ThreadsWork>(g);
  }
}
static const unsigned WORKS = 17;
#endif  // WORKS_HPP_
