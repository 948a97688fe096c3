// P42: what is documented not to allocate memory does not: no call of the allocator it was given, and no allocation from the heap by whatever
// function (seen by the address sanitizer's hooks), in every state of the objects and on every error path. The allocators refuse everything meanwhile.
#include <sys/mman.h>
#include <unistd.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>
#include "capture.hpp"
#include "mon.hpp"
#include "logref.hpp"
#include "rcutils/logging.h"
#include "rcutils/logging_macros.h"
#include "rcutils/time.h"
#include "rcutils/types/array_list.h"
#include "rcutils/types/hash_map.h"
using namespace mon;

static thread_local int tl_watch = 0;
static thread_local uint64_t tl_heap = 0;
static thread_local size_t tl_heap_size = 0;
static void on_malloc(const volatile void *, size_t n)
{
  if (tl_watch <= 0 || tl_in_ck) {return;}
  tl_heap++;
  tl_heap_size = n;
  if (getenv("MON_TRACE")) {int w = tl_watch; tl_watch = 0; __sanitizer_print_stack_trace(); tl_watch = w;}
}
static void on_free(const volatile void *) {}
static void hooks()
{
  static bool once = false;
  if (once) {return;}
  once = true;
  if (__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) == 0) {fail("noalloc.setup", "no allocation hooks");}
  tl_watch = 1;
  void * volatile p = malloc(77);
  tl_watch = 0;
  free(p);
  if (tl_heap != 1 || tl_heap_size != 77) {fail("noalloc.setup", "allocation hooks do not work");}
}
struct Pause {int s; Pause() : s(tl_watch) {tl_watch = 0;} ~Pause() {tl_watch = s;}};

static CkAlloc * g_al = nullptr;
struct Seen {uint64_t calls, heap;};
// runs one operation; the allocator refuses everything unless it is known to be needed
template<class F> static Seen watched(F && f, bool refuse = true)
{
  CkAlloc & a = *g_al;
  uint64_t before = a.calls;
  tl_heap = 0;
  if (refuse) {a.arm(1, true);}
  tl_watch = 1;
  f();
  tl_watch = 0;
  a.disarm();
  return Seen{a.calls - before, tl_heap};
}
template<class F> static void none(const char * op, F && f)
{
  Seen s = watched(f);
  MON_CHECK(s.calls == 0, fmt("noalloc.%s", op), "%s asks its allocator for memory (%" PRIu64 " calls)", op, s.calls);
  MON_CHECK(s.heap == 0, fmt("noalloc.%s", op), "%s takes %zu bytes from the heap (%" PRIu64 " allocations)", op, tl_heap_size, s.heap);
  count(fmt("op.%s", op));
  count("ops");
}

// ------------------------------------------------------------------ lists
static void lists(Case & c)
{
  hooks();
  Rng & g = c.rng;
  CkAlloc A;
  g_al = &A;
  rcutils_allocator_t al = A.get();
  size_t es = 1 + g.size(300), most = 0;
  rcutils_array_list_t l;
  none("get_zero_initialized_array_list", [&] {l = rcutils_get_zero_initialized_array_list();});
  MON_CHECK(rcutils_array_list_init(&l, 1 + g.size(40), es, &al) == RCUTILS_RET_OK, "noalloc.init", "init");
  std::vector<std::string> m;
  std::string e(es, 0), got(es, 0);
  unsigned n = 20 + static_cast<unsigned>(g.below(120));
  bool drain = false;
  // a long list, which becomes a short one
  size_t bulk = g.chance(1, 6) ? 64 + g.size(2000) : 0;
  for (size_t i = 0; i < bulk; ++i) {
    e = g.bytes(es);
    MON_CHECK(rcutils_array_list_add(&l, e.data()) == RCUTILS_RET_OK, "noalloc.list-result", "add");
    m.push_back(e);
  }
  for (size_t left = bulk ? g.size(40) : 0; m.size() > left; ) {
    size_t idx = g.chance(1, 2) ? m.size() - 1 : g.below(m.size());
    rcutils_ret_t r = RCUTILS_RET_ERROR;
    none("array_list_remove", [&] {r = rcutils_array_list_remove(&l, idx);});
    MON_CHECK(r == RCUTILS_RET_OK, "noalloc.list-result", "remove: %d", r);
    m.erase(m.begin() + static_cast<long>(idx));
    count("elements of long lists removed");
  }
  for (unsigned i = 0; i < n; ++i) {
    e = g.bytes(es);
    size_t at = m.empty() ? 0 : g.below(m.size()), sz = 0;
    bool beyond = m.empty() || g.chance(1, 10);
    size_t idx = beyond ? m.size() + g.below(3) : at;
    rcutils_ret_t r = RCUTILS_RET_OK, want = beyond ? RCUTILS_RET_INVALID_ARGUMENT : RCUTILS_RET_OK;
    if (g.chance(1, 25)) {drain = !drain;}
    switch (g.below(drain ? 5 : 8)) {
      case 0: case 1:
        none("array_list_remove", [&] {r = rcutils_array_list_remove(&l, idx);});
        if (!beyond) {m.erase(m.begin() + static_cast<long>(idx));}
        break;
      case 2:
        none("array_list_set", [&] {r = rcutils_array_list_set(&l, idx, e.data());});
        if (!beyond) {m[idx] = e;}
        break;
      case 3:
        none("array_list_get", [&] {r = rcutils_array_list_get(&l, idx, &got[0]);});
        MON_CHECK(beyond || got == m[idx], "noalloc.list-content", "element %zu", idx);
        break;
      case 4:
        none("array_list_get_size", [&] {r = rcutils_array_list_get_size(&l, &sz);});
        want = RCUTILS_RET_OK;
        MON_CHECK(sz == m.size(), "noalloc.list-content", "size %zu, should be %zu", sz, m.size());
        break;
      default:
        r = rcutils_array_list_add(&l, e.data());
        want = RCUTILS_RET_OK;
        m.push_back(e);
        break;
    }
    MON_CHECK(r == want, "noalloc.list-result", "%d with the allocator refusing everything, should be %d", r, want);
    rcutils_reset_error();
    most = std::max(most, m.size());
  }
  // rejected calls
  size_t sz = 0;
  none("array_list rejected", [&] {(void)!rcutils_array_list_remove(nullptr, 0);}); rcutils_reset_error();
  none("array_list rejected", [&] {(void)!rcutils_array_list_set(&l, SIZE_MAX, &e[0]);}); rcutils_reset_error();
  none("array_list rejected", [&] {(void)!rcutils_array_list_set(&l, 0, nullptr);}); rcutils_reset_error();
  none("array_list rejected", [&] {(void)!rcutils_array_list_get(&l, SIZE_MAX, &got[0]);}); rcutils_reset_error();
  none("array_list rejected", [&] {(void)!rcutils_array_list_get(nullptr, 0, &got[0]);}); rcutils_reset_error();
  none("array_list rejected", [&] {(void)!rcutils_array_list_get_size(&l, nullptr);}); rcutils_reset_error();
  none("array_list rejected", [&] {(void)!rcutils_array_list_get_size(nullptr, &sz);}); rcutils_reset_error();
  rcutils_ret_t r = RCUTILS_RET_ERROR;
  none("array_list_fini", [&] {r = rcutils_array_list_fini(&l);});
  MON_CHECK(r == RCUTILS_RET_OK, "noalloc.list-result", "fini: %d", r);
  rcutils_reset_error();
  none("array_list_fini", [&] {r = rcutils_array_list_fini(&l);});
  check_empty(A, "lists");
  rcutils_reset_error();
  g_al = nullptr;
  c.mix(most); c.mix(es); c.mix(n);
  if (most > 3) {c.interesting();}
}

// ------------------------------------------------------------------ maps
static size_t poor_hash(const void * k) {uint32_t v; memcpy(&v, k, 4); return v % 5;}
static size_t good_hash(const void * k) {uint32_t v; memcpy(&v, k, 4); return mix64(v);}
static size_t g_key_size = 4;
static int key_cmp(const void * x, const void * y) {return memcmp(x, y, g_key_size);}
static void maps(Case & c)
{
  hooks();
  Rng & g = c.rng;
  CkAlloc A;
  g_al = &A;
  rcutils_allocator_t al = A.get();
  size_t ds = 1 + g.size(200), most = 0;
  bool strings = g.chance(1, 2), poor = g.chance(1, 3);
  rcutils_hash_map_t m;
  none("get_zero_initialized_hash_map", [&] {m = rcutils_get_zero_initialized_hash_map();});
  size_t cap = 1 + g.size(60);
  size_t ks = g.chance(1, 2) ? 4 : 4 + g.size(600);
  g_key_size = ks;
  MON_CHECK(rcutils_hash_map_init(&m, cap, strings ? sizeof(char *) : ks, ds, strings ? rcutils_hash_map_string_hash_func : poor ? poor_hash : good_hash,
    strings ? rcutils_hash_map_string_cmp_func : key_cmp, &al) == RCUTILS_RET_OK, "noalloc.init", "init");
  bool bulk = g.chance(1, 8);
  unsigned domain = 1 + static_cast<unsigned>(bulk ? 64 + g.size(2000) : g.size(150));
  std::vector<std::string> text(domain);
  std::vector<const char *> ptr(domain);
  std::vector<std::string> num(domain);
  for (unsigned k = 0; k < domain; ++k) {text[k] = fmt("key%u%s", k, g.str(g.size(30), "abc").c_str()); ptr[k] = text[k].c_str(); num[k] = std::string(ks, static_cast<char>('a' + k % 3)); memcpy(&num[k][0], &k, 4);}
  auto key = [&](unsigned k) -> const void * {return strings ? static_cast<const void *>(&ptr[k]) : static_cast<const void *>(num[k].data());};
  std::map<unsigned, std::string> ref;
  unsigned n = 30 + static_cast<unsigned>(g.below(200));
  bool drain = false;
  std::string v(ds, 0), got(ds, 0);
  if (bulk) {
    for (unsigned k = 0; k < domain; ++k) {
      v = g.bytes(ds);
      MON_CHECK(rcutils_hash_map_set(&m, key(k), v.data()) == RCUTILS_RET_OK, "noalloc.map-result", "set");
      ref[k] = v;
    }
    size_t left = g.size(40);
    for (unsigned k = 0; k < domain && ref.size() > left; ++k) {
      rcutils_ret_t r = RCUTILS_RET_ERROR;
      none("hash_map_unset", [&] {r = rcutils_hash_map_unset(&m, key(k));});
      MON_CHECK(r == RCUTILS_RET_OK, "noalloc.map-result", "unset: %d", r);
      ref.erase(k);
      count("entries of large maps removed");
    }
  }
  for (unsigned i = 0; i < n; ++i) {
    unsigned k = static_cast<unsigned>(g.below(domain));
    bool in = ref.count(k) != 0;
    rcutils_ret_t r = RCUTILS_RET_OK;
    size_t sz = 0;
    bool b = false;
    if (g.chance(1, 40)) {drain = !drain;}
    switch (g.below(drain ? 6 : 9)) {
      case 0: case 1:
        none("hash_map_unset", [&] {r = rcutils_hash_map_unset(&m, key(k));});
        MON_CHECK(r == RCUTILS_RET_OK, "noalloc.map-result", "unset: %d", r);
        ref.erase(k);
        break;
      case 2:
        none("hash_map_get", [&] {r = rcutils_hash_map_get(&m, key(k), &got[0]);});
        MON_CHECK(r == (in ? RCUTILS_RET_OK : RCUTILS_RET_NOT_FOUND) && (!in || got == ref[k]), "noalloc.map-result", "get: %d", r);
        break;
      case 3:
        none("hash_map_key_exists", [&] {b = rcutils_hash_map_key_exists(&m, key(k));});
        MON_CHECK(b == in, "noalloc.map-result", "key_exists: %d", b);
        break;
      case 4:
        none("hash_map_get_size", [&] {r = rcutils_hash_map_get_size(&m, &sz);});
        MON_CHECK(r == RCUTILS_RET_OK && sz == ref.size(), "noalloc.map-result", "get_size: %d, %zu", r, sz);
        none("hash_map_get_capacity", [&] {r = rcutils_hash_map_get_capacity(&m, &sz);});
        MON_CHECK(r == RCUTILS_RET_OK && sz >= cap, "noalloc.map-result", "get_capacity: %d, %zu", r, sz);
        break;
      case 5: {
          // all entries
          size_t found = 0;
          union K {const char * s; uint32_t u; char all[608];} cur, was;
          const void * prev = nullptr;
          while (found <= ref.size()) {
            none("hash_map_get_next_key_and_data", [&] {r = rcutils_hash_map_get_next_key_and_data(&m, prev, &cur, &got[0]);});
            if (r != RCUTILS_RET_OK) {break;}
            found++;
            memcpy(&was, &cur, sizeof(cur));
            prev = &was;
            if (!strings) {MON_CHECK(ref.count(cur.u) && ref[cur.u] == got, "noalloc.map-result", "entry %u", cur.u);}
          }
          MON_CHECK(found == ref.size() && r == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES, "noalloc.map-result", "%zu entries of %zu, %d", found, ref.size(), r);
          if (!in) {none("hash_map_get_next_key_and_data", [&] {r = rcutils_hash_map_get_next_key_and_data(&m, key(k), &cur, &got[0]);});}
          break;
        }
      default:
        v = g.bytes(ds);
        MON_CHECK(rcutils_hash_map_set(&m, key(k), v.data()) == RCUTILS_RET_OK, "noalloc.map-result", "set");
        ref[k] = v;
        break;
    }
    rcutils_reset_error();
    most = std::max(most, ref.size());
  }
  rcutils_hash_map_t z = rcutils_get_zero_initialized_hash_map();
  size_t sz = 0;
  none("hash_map rejected", [&] {(void)!rcutils_hash_map_get(&z, key(0), &got[0]);}); rcutils_reset_error();
  none("hash_map rejected", [&] {(void)!rcutils_hash_map_get(&m, nullptr, &got[0]);}); rcutils_reset_error();
  none("hash_map rejected", [&] {(void)!rcutils_hash_map_get(&m, key(0), nullptr);}); rcutils_reset_error();
  none("hash_map rejected", [&] {(void)!rcutils_hash_map_key_exists(&z, key(0));}); rcutils_reset_error();
  none("hash_map rejected", [&] {(void)!rcutils_hash_map_unset(&m, nullptr);}); rcutils_reset_error();
  none("hash_map rejected", [&] {(void)!rcutils_hash_map_unset(&z, key(0));}); rcutils_reset_error();
  none("hash_map rejected", [&] {(void)!rcutils_hash_map_get_size(&z, &sz);}); rcutils_reset_error();
  none("hash_map rejected", [&] {(void)!rcutils_hash_map_get_capacity(&m, nullptr);}); rcutils_reset_error();
  none("hash_map rejected", [&] {(void)!rcutils_hash_map_get_next_key_and_data(&z, nullptr, &sz, &got[0]);}); rcutils_reset_error();
  none("hash_map rejected", [&] {(void)!rcutils_hash_map_fini(&z);}); rcutils_reset_error();
  none("hash_map rejected", [&] {(void)!rcutils_hash_map_fini(nullptr);}); rcutils_reset_error();
  rcutils_ret_t r = RCUTILS_RET_ERROR;
  none("hash_map_fini", [&] {r = rcutils_hash_map_fini(&m);});
  MON_CHECK(r == RCUTILS_RET_OK, "noalloc.map-result", "fini: %d", r);
  rcutils_reset_error();
  check_empty(A, "maps");
  g_al = nullptr;
  c.mix(most); c.mix(ds); c.mix(n); c.mix(domain);
  if (most > 3) {c.interesting();}
}

// ------------------------------------------------------------------ logging
static char g_got[2200];
static unsigned g_records = 0;
static void handler(const rcutils_log_location_t *, int, const char * name, rcutils_time_point_value_t, const char * f, va_list * args)
{
  Pause p;
  g_records++;
  int n = snprintf(g_got, sizeof(g_got), "%s|", name);
  va_list a;
  va_copy(a, *args);
  vsnprintf(g_got + n, sizeof(g_got) - static_cast<size_t>(n), f, a);
  va_end(a);
}
static int sev(Rng & g) {return static_cast<int>(10 * (1 + g.below(5)));}
static std::string logger(Rng & g)
{
  std::string s;
  for (size_t n = 1 + g.below(4); n; --n) {s += (s.empty() ? "" : ".") + g.str(1 + g.size(g.chance(1, 20) ? 400 : 12), "abc_");}
  return s;
}
struct Levels
{
  std::map<std::string, int> m;
  int def = 20;
  bool own(const std::string & n) const {auto i = m.find(n); return i != m.end() && i->second != 0;}
  int effective(std::string n) const
  {
    for (;;) {
      auto i = m.find(n);
      if (i != m.end() && i->second) {return i->second;}
      size_t p = n.rfind('.');
      if (p == std::string::npos) {return def;}
      n.resize(p);
    }
  }
};
// The documentation says these allocate nothing; looking up a name in the tree copies it for as long as the call lasts.
static std::vector<std::pair<std::string, std::string>> g_found;      // kept while output is captured
template<class F> static void lookup(const char * op, const char * key, bool copies, F && f, uint64_t lookups = 1)
{
  CkAlloc & a = *g_al;
  size_t blocks = a.live_blocks;
  if (!copies) {none(op, f); return;}
  Seen s = watched(f, false);
  MON_CHECK(s.heap == 0, fmt("noalloc.%s", op), "%s takes %zu bytes from the heap", op, tl_heap_size);
  MON_CHECK(s.calls <= lookups, fmt("noalloc.%s", op), "%s asks for memory %" PRIu64 " times", op, s.calls);
  MON_CHECK(a.live_blocks == blocks, fmt("noalloc.%s", op), "%s keeps memory", op);
  if (s.calls) {
    g_found.emplace_back(key, fmt("%s copies the name in memory of the logging allocator", op));
    count("copies of names");
  }
  count(fmt("op.%s", op));
  count("ops");
}

static void site(int s, const char * name, const std::string & msg)
{
  RCUTILS_LOG_COND_NAMED(s, RCUTILS_LOG_CONDITION_EMPTY, RCUTILS_LOG_CONDITION_EMPTY, name, "%.*s", static_cast<int>(msg.size()), msg.c_str());
}
static const size_t SITE_LINE = __LINE__ - 2;

static void logging(Case & c)
{
  hooks();
  Rng & g = c.rng;
  CkAlloc A;
  g_al = &A;
  // how lines look
  bool colored = g.chance(1, 3), sout = g.chance(1, 3);
  std::string format;
  static const char * const TOK[] = {"{severity}", "{name}", "{message}", "{function_name}", "{file_name}", "{line_number}", "{time}", "{date_time_with_ms}", "{time_as_nanoseconds}"};
  if (g.chance(2, 3)) {for (size_t n = 1 + g.below(6); n; --n) {format += TOK[g.below(9)]; format += g.str(g.below(4), " :-");}}
  setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", format.c_str(), 1);
  setenv("RCUTILS_COLORIZED_OUTPUT", colored ? "1" : "0", 1);
  setenv("RCUTILS_LOGGING_USE_STDOUT", sout ? "1" : "0", 1);
  if (g.chance(1, 2)) {setenv("RCUTILS_LOGGING_BUFFERED_STREAM", g.chance(1, 2) ? "1" : "0", 1);} else {unsetenv("RCUTILS_LOGGING_BUFFERED_STREAM");}
  static bool warm = false;
  if (!warm) {
    warm = true;
    time_t t = 0;
    struct tm tm;
    localtime_r(&t, &tm);
    std::string o, e;
    {Capture so(stdout, 1), se(stderr, 2); fprintf(stdout, "x%d\n", 1); fprintf(stderr, "x%d\n", 1); o = so.stop(); e = se.stop();}
  }
  Levels ref;
  (void)!rcutils_logging_shutdown();     // maps initialize logging as a side effect of growing
  MON_CHECK(rcutils_logging_initialize_with_allocator(A.get()) == RCUTILS_RET_OK, "noalloc.init", "logging does not initialize: %s", rcutils_get_error_string().str);
  struct Down {~Down() {tl_watch = 0; g_al = nullptr; (void)!rcutils_logging_shutdown(); rcutils_reset_error();}} down;
  unsigned steps = 30 + static_cast<unsigned>(g.below(60)), lines = 0;
  std::vector<std::string> names;
  bool use_handler = false;
  for (unsigned i = 0; i < steps; ++i) {
    std::string name = !names.empty() && g.chance(2, 3) ? g.pick(names) : logger(g);
    if (g.chance(1, 4)) {name += "." + logger(g);}
    if (g.chance(1, 12)) {name.clear();}
    int s = sev(g), got = 0;
    // which lookups copy the name
    bool copies = !ref.m.empty() && !ref.own(name);
    switch (g.below(9)) {
      case 0: case 1: {
          int lvl = g.chance(1, 8) ? 0 : s;
          if (name.empty()) {break;}
          MON_CHECK(rcutils_logging_set_logger_level(name.c_str(), lvl) == RCUTILS_RET_OK, "noalloc.level", "set_logger_level: %s", rcutils_get_error_string().str);
          ref.m[name] = lvl;
          names.push_back(name);
          break;
        }
      case 2:
        lookup("get_logger_level", "noalloc.get_logger_level.copy", !name.empty(), [&] {got = rcutils_logging_get_logger_level(name.c_str());});
        MON_CHECK(got == (name.empty() ? ref.def : ref.own(name) ? ref.m[name] : 0), "noalloc.level", "level %d of %s", got, name.c_str());
        lookup("get_logger_leveln", "noalloc.get_logger_leveln.copy", !name.empty(), [&] {got = rcutils_logging_get_logger_leveln(name.data(), name.size());});
        MON_CHECK(got == (name.empty() ? ref.def : ref.own(name) ? ref.m[name] : 0), "noalloc.level", "level %d of %s", got, name.c_str());
        break;
      case 3:
        lookup("get_logger_effective_level", "noalloc.get_logger_effective_level.copy", copies, [&] {got = rcutils_logging_get_logger_effective_level(name.c_str());});
        MON_CHECK(got == ref.effective(name), "noalloc.level", "effective level %d of %s instead of %d", got, name.c_str(), ref.effective(name));
        break;
      case 4: {
          bool b = false;
          lookup("logger_is_enabled_for", "noalloc.logger_is_enabled_for.copy", copies, [&] {b = rcutils_logging_logger_is_enabled_for(name.c_str(), s);});
          MON_CHECK(b == (s >= ref.effective(name)), "noalloc.level", "enabled: %d", b);
          none("logger_is_enabled_for (no name)", [&] {b = rcutils_logging_logger_is_enabled_for(nullptr, s);});
          MON_CHECK(b == (s >= ref.def), "noalloc.level", "enabled: %d", b);
          break;
        }
      case 5: {
          rcutils_logging_output_handler_t h = nullptr;
          use_handler = g.chance(1, 2);
          none("set_output_handler", [&] {rcutils_logging_set_output_handler(use_handler ? handler : rcutils_logging_console_output_handler);});
          none("get_output_handler", [&] {h = rcutils_logging_get_output_handler();});
          MON_CHECK(h == (use_handler ? handler : rcutils_logging_console_output_handler), "noalloc.handler", "another handler");
          int d = g.chance(1, 6) ? 0 : sev(g);
          none("set_default_logger_level", [&] {rcutils_logging_set_default_logger_level(d);});
          ref.def = d ? d : 20;
          none("get_default_logger_level", [&] {got = rcutils_logging_get_default_logger_level();});
          MON_CHECK(got == ref.def, "noalloc.level", "default level %d instead of %d", got, ref.def);
          break;
        }
      default: {
          // a record; what it comes to has up to 1023 characters
          rcutils_log_location_t loc = {"some_function", "some/file.cpp", 1 + g.below(1000)};
          unsigned kind = static_cast<unsigned>(g.below(4));
          bool here = kind == 2 || g.chance(3, 4);
          if (kind == 2) {loc = {"site", __FILE__, SITE_LINE};}
          logref::Record r;
          r.has_location = here;
          r.function = loc.function_name; r.file = loc.file_name; r.line = loc.line_number;
          r.name = name; r.severity = s; r.t = 1700000000000000000;
          std::string fmt_ = logref::unescape(format);
          size_t tokens = 0;
          for (size_t p = fmt_.find("{message}"); p != std::string::npos; p = fmt_.find("{message}", p + 1)) {tokens++;}
          auto length = [&] {
              std::string o;
              for (size_t p = 0; p < fmt_.size(); ) {
                size_t q;
                if (fmt_[p] == '{' && (q = fmt_.find('}', p)) != std::string::npos) {logref::expand(fmt_.substr(p + 1, q - p - 1), r, &o); p = q + 1;} else {o += fmt_[p++];}
              }
              return o.size() + (colored ? strlen(logref::color(s)) + 4 : 0);
            };
          size_t fixed = length();
          if (fixed > 1023) {break;}
          size_t room = tokens ? (1023 - fixed) / tokens : 1023;
          size_t len = g.chance(1, 3) ? room : g.size(room);
          std::string msg = g.str(len, "message text ");
          r.msg = msg;
          bool exact = tokens && length() == 1023;
          bool on = s >= ref.effective(name);
          std::string text;
          g_records = 0;
          {
            Capture cap(sout ? stdout : stderr, sout ? 1 : 2);
            switch (kind) {
              case 0: lookup("log", "noalloc.log.copy", copies, [&] {rcutils_log(here ? &loc : nullptr, s, name.c_str(), "%s", msg.c_str());}); break;
              case 1: none("log_internal", [&] {rcutils_log_internal(here ? &loc : nullptr, s, name.c_str(), "%s", msg.c_str());}); on = true; break;
              case 2: lookup("log macro", "noalloc.log.copy", copies, [&] {site(s, name.c_str(), msg);}, 2); break;
              default: none("log (no name)", [&] {rcutils_log(here ? &loc : nullptr, s, nullptr, "%s", msg.c_str());}); on = s >= ref.def; break;
            }
            text = cap.stop();
          }
          MON_CHECK(use_handler ? g_records == (on ? 1u : 0u) : text.empty() != on, "noalloc.record", "%u records, %s, kind %u, enabled %d, handler %d, stdout %d", g_records, show(text).c_str(), kind, on, use_handler, sout);
          MON_CHECK(!on || use_handler || !tokens || text.find(msg) != std::string::npos, "noalloc.record", "no message in %s", show(text).c_str());
          if (on && !use_handler) {count("lines"); lines++; if (exact && kind != 3) {count("lines of 1023 characters");}}
          break;
        }
    }
    for (auto & v : g_found) {record_violation(v.first, v.second);}
    g_found.clear();
    rcutils_reset_error();
  }
  rcutils_ret_t r = RCUTILS_RET_ERROR;
  none("logging_shutdown", [&] {r = rcutils_logging_shutdown();});
  MON_CHECK(r == RCUTILS_RET_OK, "noalloc.shutdown", "shutdown: %d", r);
  none("logging_shutdown", [&] {r = rcutils_logging_shutdown();});
  check_empty(A, "logging");
  c.mix(steps); c.mix(ref.m.size()); c.mix(lines); c.mix(format);
  if (ref.m.size() > 2 && lines) {c.interesting();}
}

// ------------------------------------------------------------------ time and the default allocator
static void times(Case & c)
{
  hooks();
  Rng & g = c.rng;
  CkAlloc A;
  g_al = &A;
  static bool warm = false;
  if (!warm) {warm = true; time_t t = 0; struct tm tm; localtime_r(&t, &tm);}
  for (int i = 0; i < 60; ++i) {
    rcutils_time_point_value_t v = static_cast<int64_t>(g.next() >> g.below(63));
    if (g.chance(1, 3)) {v = static_cast<int64_t>(-static_cast<uint64_t>(v));}
    size_t n = g.chance(1, 10) ? 0 : 1 + g.size(300);
    std::vector<char> b(n + 1);
    rcutils_ret_t r = RCUTILS_RET_OK;
    switch (g.below(6)) {
      case 0: none("time_point_value_as_nanoseconds_string", [&] {r = rcutils_time_point_value_as_nanoseconds_string(g.chance(1, 9) ? nullptr : &v, b.data(), n);}); break;
      case 1: none("time_point_value_as_seconds_string", [&] {r = rcutils_time_point_value_as_seconds_string(&v, g.chance(1, 9) ? nullptr : b.data(), n);}); break;
      case 2: none("time_point_value_as_date_string", [&] {r = rcutils_time_point_value_as_date_string(g.chance(1, 9) ? nullptr : &v, b.data(), n);}); break;
      case 3: none("system_time_now", [&] {r = rcutils_system_time_now(g.chance(1, 5) ? nullptr : &v);}); break;
      case 4: none("steady_time_now", [&] {r = rcutils_steady_time_now(g.chance(1, 5) ? nullptr : &v);}); break;
      default: {
          rcutils_allocator_t a = rcutils_get_zero_initialized_allocator();
          none("get_default_allocator", [&] {a = rcutils_get_default_allocator();});
          none("allocator_is_valid", [&] {r = rcutils_allocator_is_valid(&a) ? RCUTILS_RET_OK : RCUTILS_RET_ERROR;});
          MON_CHECK(r == RCUTILS_RET_OK, "noalloc.allocator", "the default allocator is not valid");
          none("get_zero_initialized_allocator", [&] {a = rcutils_get_zero_initialized_allocator();});
          break;
        }
    }
    c.mix(static_cast<uint64_t>(v)); c.mix(n);
    rcutils_reset_error();
  }
  g_al = nullptr;
  c.interesting();
}

static void reg()
{
  section("noalloc-lists", 400, 20000, lists);
  section("noalloc-maps", 400, 20000, maps);
  section("noalloc-logging", 500, 20000, logging);
  section("noalloc-time", 200, 5000, times);
}
MON_MAIN(reg)
